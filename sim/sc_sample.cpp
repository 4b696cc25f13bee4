// C06: support of samples under every random word; C07: samples follow their density.
#include "dmodels.h"
#include "pmodels.h"
#include "kmodels.h"
#include <pdf/mixture.h>
#include <pdf/uniform.h>
using namespace W;
namespace {
// One sampleable thing with everything the oracles need.
struct Dens {
  virtual ~Dens() {}
  const char* name; std::vector<SampleMthd> one_m, list_m;
  virtual bool one(Key&, SampleMthd) = 0;
  virtual bool many(std::vector<Key>&, unsigned n, unsigned presize, SampleMthd) = 0;
  virtual bool in(const Key&) = 0;                       // support
  virtual void print(std::vector<double>& out) = 0;      // fingerprint of the density
  virtual void statistics(Sim&, const std::vector<Key>&, const char* how, bool ordered) = 0;
};
const double EV = 34;   // log-evidence (Chernoff) at which a statistic is a violation: false alarm below 1e-14 each
void binom(Sim& s, const char* name, const char* how, const char* what, double n, double p, double c) { double e = binom_evidence(n, p, c); if (e > EV) s.fail("distribution", "%s, %s: %s happened %.0f times in %.0f, probability %.9g (log evidence %.1f)", name, how, what, c, n, p, e); }
void chi2(Sim& s, const char* name, const char* how, const char* what, double n, double ss) { double r = ss / n, e = r > 0 ? n / 2 * (r - 1 - std::log(r)) : 1e9; if (!(e <= EV)) s.fail("distribution", "%s, %s: %s is %.6g times its expected value over %.0f draws (log evidence %.1f)", name, how, what, r, n, e); }
double Phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }

template <class T> struct Base : Dens {
  int dim; Base(int d) : dim(d) {}
  virtual const Pdf<T>& pdf() = 0;
  bool one(Key& k, SampleMthd m) { Sample<T> x(dim); bool ok; { Sut sut; ok = pdf().SampleFrom(x, m, NULL); } if (ok) k = TT<T>::key(x.ValueGet()); return ok; }
  bool many(std::vector<Key>& o, unsigned n, unsigned pre, SampleMthd m) { std::vector<Sample<T> > l(pre, Sample<T>(dim)); bool ok; { Sut sut; ok = pdf().SampleFrom(l, n, m, NULL); } o.clear(); for (auto& x : l) o.push_back(TT<T>::key(x.ValueGet())); return ok; }
};
// ---- discrete supports: a table key -> probability
template <class T> struct Disc : Base<T> {
  std::map<Key, double> t; std::unique_ptr<Pdf<T> > d; std::function<void(std::vector<double>&)> pr;
  Disc(int dim) : Base<T>(dim) {}
  const Pdf<T>& pdf() { return *d; }
  bool in(const Key& k) { auto i = t.find(k); return i != t.end() && i->second > 0; }
  void print(std::vector<double>& o) { pr(o); }
  void statistics(Sim& s, const std::vector<Key>& v, const char* how, bool ordered) {
    std::map<Key, double> c; for (auto& k : v) c[k]++; for (auto& kv : t) { std::string w = "value " + str(kv.first); binom(s, this->name, how, w.c_str(), v.size(), kv.second, c[kv.first]); }
    if (!ordered) { double p = 0; std::set<Key> A; for (auto& kv : t) if (p < 0.4) { p += kv.second; A.insert(kv.first); } double both = 0, n = 0; for (size_t i = 0; i + 1 < v.size(); i += 2) { n++; both += A.count(v[i]) && A.count(v[i + 1]); } binom(s, this->name, how, "a pair of successive draws in one set", n, p * p, both); }
  }
};
// ---- Gaussian-like: known mean and covariance
struct Gau : Base<ColumnVector> {
  ref::V mu; ref::M S; std::vector<int> deg; std::map<int, ref::V> dep; // degenerate axes: constant, or an exact linear function of the other axes (dep)
  std::function<const Pdf<ColumnVector>&()> get; std::function<void(std::vector<double>&)> pr; std::function<ref::V()> sim_; bool usesim;
  std::vector<std::shared_ptr<void> > keep;
  Gau(int d) : Base<ColumnVector>(d), usesim(false) {}
  const Pdf<ColumnVector>& pdf() { return get(); }
  bool one(Key& k, SampleMthd m) { if (!usesim) return Base<ColumnVector>::one(k, m); ref::V v = sim_(); k.assign(v.begin(), v.end()); return true; }
  bool in(const Key& k) { for (double v : k) if (!std::isfinite(v)) return false; if ((int)k.size() != dim) return false; for (int i : deg) { auto w = dep.find(i); double c = (double)mu[i], tol = 1e-12 * (1 + std::fabs(c)); if (w != dep.end()) { tol += 1e-5 * std::sqrt((double)S(i, i)); for (int j = 0; j < dim; j++) { c += (double)w->second[j] * (k[j] - (double)mu[j]); } } if (std::fabs(k[i] - c) > tol) return false; } return true; }
  // rank-deficient covariance: some axes are linear functions of the others (process noise G q G')
  void singular(Sim& s) { std::vector<int> base; deg.clear(); dep.clear(); for (int i = 0; i < dim; i++) if (s.draw(2)) base.push_back(i); else deg.push_back(i); if (base.empty()) { base.push_back(deg.back()); deg.pop_back(); } static const double F[] = {1, 1, 1e-3, 37, 1e3}; ref::R sc = F[s.draw(5)] / 3.0L; ref::M G(dim, dim), D(dim, dim); for (int b : base) { G(b, b) = 1; D(b, b) = sc * s.real(0.5, 2); } for (int i : deg) { ref::V w(dim, 0); for (int b : base) { static const double W[] = {0, 0.5, -0.5, 1, -1, 2}; w[b] = W[s.draw(6)]; G(i, b) = w[b]; } dep[i] = w; } S = ref::sym(ref::mul(ref::mul(G, D), ref::tr(G))); for (auto& v : S.a) v = (ref::R)(double)v; s.probe("rank_deficient"); }
  void print(std::vector<double>& o) { pr(o); }
  void statistics(Sim& s, const std::vector<Key>& v, const char* how, bool) {
    int n = dim; double M = v.size(); if (M < 8) return; std::vector<int> ax; for (int i = 0; i < n; i++) if (std::find(deg.begin(), deg.end(), i) == deg.end()) ax.push_back(i); int q = ax.size(); if (!q) return;
    ref::M L(q, q); for (int j = 0; j < q; j++) { ref::R t = S(ax[j], ax[j]); for (int k = 0; k < j; k++) t -= L(j, k) * L(j, k); L(j, j) = std::sqrt((double)t); for (int i = j + 1; i < q; i++) { ref::R u = S(ax[i], ax[j]); for (int k = 0; k < j; k++) u -= L(i, k) * L(j, k); L(i, j) = u / L(j, j); } }
    std::vector<std::vector<double> > y(v.size(), std::vector<double>(q)); for (size_t t = 0; t < v.size(); t++) for (int i = 0; i < q; i++) { ref::R u = v[t][ax[i]] - mu[ax[i]]; for (int k = 0; k < i; k++) u -= L(i, k) * (ref::R)y[t][k]; y[t][i] = (double)(u / L(i, i)); }
    for (int i = 0; i < q; i++) { double a = 0, ss = 0, mid = 0, pos = 0; for (auto& r : y) { a += r[i]; ss += r[i] * r[i]; mid += std::fabs(r[i]) < 0.6744897501960817; pos += r[i] > 0; }
      double z = a / std::sqrt(M); if (!(std::fabs(z) < 8.2)) s.fail("distribution", "%s, %s: whitened mean of axis %d is off by %.2f standard errors", name, how, ax[i], z); chi2(s, name, how, "whitened variance", M, ss); binom(s, name, how, "central half", M, 0.5, mid); binom(s, name, how, "upper half", M, 0.5, pos);
      for (int j = 0; j < i; j++) for (int sg = -1; sg <= 1; sg += 2) { double t = 0; for (auto& r : y) { double w = (r[i] + sg * r[j]) / std::sqrt(2.0); t += w * w; } chi2(s, name, how, "whitened variance along a diagonal (correlation)", M, t); }
      for (int j = 0; j < q; j++) for (int sg = -1; sg <= 1; sg += 2) { double t = 0, k = 0; for (size_t u = 0; u + 1 < y.size(); u += 2) { double w = (y[u][i] + sg * y[u + 1][j]) / std::sqrt(2.0); t += w * w; k++; } chi2(s, name, how, "variance of combined successive draws (independence)", k, t); } }
  }
};
// ---- mixtures and uniforms over R^n: components with known axis marginals
struct C_ { int kind; double w; ref::V a, b; ref::M S; };  // 0 Gaussian(a,S) 1 Uniform(center a,width b)
struct Mix : Base<ColumnVector> {
  std::vector<C_> c; std::unique_ptr<Pdf<ColumnVector> > d; std::function<void(std::vector<double>&)> pr; Mix(int dm) : Base<ColumnVector>(dm) {}
  const Pdf<ColumnVector>& pdf() { return *d; }
  bool in(const Key& k) { if ((int)k.size() != dim) return false; for (double v : k) if (!std::isfinite(v)) return false; for (auto& x : c) if (x.w > 0) { if (x.kind == 0) return true; bool ok = true; for (int i = 0; i < dim; i++) if (std::fabs(k[i] - (double)x.a[i]) > (double)x.b[i] / 2 * (1 + 1e-12) + 1e-12) ok = false; if (ok) return true; } return false; }
  void print(std::vector<double>& o) { pr(o); }
  double cdf(const C_& x, int i, double t) { if (x.kind == 0) return Phi((t - (double)x.a[i]) / std::sqrt((double)x.S(i, i))); double f = (t - (double)(x.a[i] - x.b[i] / 2)) / (double)x.b[i]; return f < 0 ? 0 : f > 1 ? 1 : f; }
  void statistics(Sim& s, const std::vector<Key>& v, const char* how, bool ordered) {
    for (int r = 0; r < 6; r++) { int i = s.draw(dim); const C_& ref = c[s.draw(c.size())]; double t = (double)ref.a[i] + s.sym(1.5); double p = 0; for (auto& x : c) p += x.w * cdf(x, i, t); double n = 0; for (auto& k : v) n += k[i] <= t; binom(s, name, how, "a draw below a threshold", v.size(), std::min(1.0, p), n);
      if (!ordered) { double b = 0, m = 0; for (size_t u = 0; u + 1 < v.size(); u += 2) { m++; b += v[u][i] <= t && v[u + 1][i] <= t; } binom(s, name, how, "two successive draws below a threshold", m, std::min(1.0, p) * std::min(1.0, p), b); }
      int j = s.draw(dim); if (j != i) { double t2 = (double)ref.a[j] + s.sym(1.5), q = 0; bool ind = true; for (auto& x : c) { if (x.w > 0 && x.kind == 0 && x.S(i, j) != 0) ind = false; q += x.w * cdf(x, i, t) * cdf(x, j, t2); } if (ind) { double m = 0; for (auto& k : v) m += k[i] <= t && k[j] <= t2; binom(s, name, how, "a draw in a quadrant", v.size(), std::min(1.0, q), m); } } }
  }
};
const SampleMthd DEF = SampleMthd::DEFAULT, RIP = SampleMthd::RIPLEY, CHO = SampleMthd::CHOLESKY;
// An earlier life of the density: it is sampled, evaluated and copied before it gets (or after it got) its final parameters.
template <class T> void use(Sim& s, const Pdf<T>& d, int dim, const std::function<void()>& eval, bool ripley) {
  WordStream w(s.seed64()); UseStream us(w); int n = s.draw(4); std::vector<Sample<T> > l;
  for (int i = 0; i < n; i++) { s.ev("earlier use"); Sut sut; switch (s.draw(4)) { case 0: { Sample<T> x(dim); d.SampleFrom(x, DEF, NULL); break; } case 1: d.SampleFrom(l, 1 + s.draw(6), DEF, NULL); break; case 2: if (ripley) d.SampleFrom(l, 1 + s.draw(6), RIP, NULL); else { Sample<T> x(dim); d.SampleFrom(x, DEF, NULL); } break; default: if (eval) eval(); } }
}
template <class P> P* succ(Sim& s, P* p) { // continue with a copy (the original is destroyed)
  if (!s.chance(250)) return p; s.ev("replaced by its copy"); Sut sut; P* q = s.draw(2) ? p->Clone() : new P(*p); delete p; return q; }
std::unique_ptr<Dens> mkdens(Sim& s) {
  int k = s.draw(9); bool life = s.chance(500);
  if (k == 0) { int n = s.chance(100) ? 1 : s.range(2, s.chance(100) ? 200 : 12); auto o = std::unique_ptr<Disc<int> >(new Disc<int>(1)); o->name = "discrete density"; DV p = rdist(s, n, s.draw(2) ? 300 : 0); DiscretePdf* d; { Sut sut; d = new DiscretePdf(n); std::vector<Probability> v = pv(p); auto ev = [&]() { d->ProbabilityGet((int)s.draw(n)); d->MostProbableStateGet(); }; if (life) { std::vector<Probability> q = pv(rdist(s, n, 300)); use<int>(s, *d, 1, ev, true); d->ProbabilitiesSet(q); use<int>(s, *d, 1, ev, true); if (n > 1 && s.draw(2)) d->ProbabilitySet(s.draw(n), Probability(s.real(0, 1))); d = succ(s, d); } d->ProbabilitiesSet(v); if (life) { use<int>(s, *d, 1, ev, true); d = succ(s, d); } o->d.reset(d); } DV g = probs(*d); for (int i = 0; i < n; i++) o->t[Key(1, i)] = (double)g[i]; o->one_m = {DEF}; o->list_m = {DEF, RIP}; o->pr = [d](std::vector<double>& q) { for (auto x : probs(*d)) q.push_back((double)x); }; return std::unique_ptr<Dens>(o.release()); }
  if (k == 1) { int n = s.range(1, 8), na = s.range(1, 3); std::vector<int> dims; for (int i = 0; i < na; i++) dims.push_back(s.range(1, 4)); Table t = rtable(s, n, dims, 250); std::vector<int> a; auto o = std::unique_ptr<Disc<int> >(new Disc<int>(1)); o->name = "conditional discrete density"; DiscreteConditionalPdf* d; { Sut sut; d = mkcond(t); if (life) { for (int i = 0; i < na; i++) d->ConditionalArgumentSet(i, (int)s.draw(dims[i])); use<int>(s, *d, 1, [&]() { d->ProbabilityGet((int)s.draw(n)); }, false); d = succ(s, d); } o->d.reset(d); for (int i = 0; i < na; i++) { a.push_back(s.draw(dims[i])); d->ConditionalArgumentSet(i, a[i]); } } const DV& r = t.row(a); for (int i = 0; i < n; i++) o->t[Key(1, i)] = (double)r[i]; o->one_m = {DEF}; o->list_m = {DEF}; o->pr = [d, n](std::vector<double>& q) { for (int i = 0; i < n; i++) q.push_back((double)d->ProbabilityGet(i)); }; return std::unique_ptr<Dens>(o.release()); }
  if (k == 2 || k == 3) { int n = s.chance(100) ? 1 : s.range(2, s.chance(100) ? 150 : 14), dim = k == 2 ? s.range(1, 3) : 1; Parts p; double tot = 0; for (int i = 0; i < n; i++) { P q; q.x = k == 2 ? rkey<ColumnVector>(s, dim, 5) : rkey<unsigned>(s, 1, 5); q.w = s.chance(150) ? 0 : s.real(0.01, 1); tot += q.w; p.push_back(q); } if (tot <= 0) p[s.draw(n)].w = 1; p = normalised(p);
    if (k == 2) { auto o = std::unique_ptr<Disc<ColumnVector> >(new Disc<ColumnVector>(dim)); o->name = "sample-based density"; MCPdf<ColumnVector>* d; { Sut sut; d = new MCPdf<ColumnVector>(n, dim); auto ev = [&]() { d->ExpectedValueGet(); d->CovarianceGet(); }; if (life) { Parts q; for (int i = 0, z = s.range(1, 20); i < z; i++) { P x; x.x = rkey<ColumnVector>(s, dim, 5); x.w = s.real(0.01, 1); q.push_back(x); } d->ListOfSamplesSet(wsamples<ColumnVector>(q, dim)); use<ColumnVector>(s, *d, dim, ev, true); d = succ(s, d); } d->ListOfSamplesSet(wsamples<ColumnVector>(p, dim)); if (life) { use<ColumnVector>(s, *d, dim, ev, true); d = succ(s, d); } o->d.reset(d); } for (auto& q : p) o->t[q.x] += q.w; o->one_m = {DEF}; o->list_m = {DEF, RIP}; o->pr = [d](std::vector<double>& q) { for (auto& x : parts<ColumnVector>(*d)) { q.insert(q.end(), x.x.begin(), x.x.end()); q.push_back(x.w); } }; return std::unique_ptr<Dens>(o.release()); }
    auto o = std::unique_ptr<Disc<unsigned> >(new Disc<unsigned>(1)); o->name = "sample-based density (unsigned)"; MCPdf<unsigned>* d; { Sut sut; d = new MCPdf<unsigned>(n, 1); if (life) { Parts q; for (int i = 0, z = s.range(1, 20); i < z; i++) { P x; x.x = rkey<unsigned>(s, 1, 5); x.w = s.real(0.01, 1); q.push_back(x); } d->ListOfSamplesSet(wsamples<unsigned>(q, 1)); use<unsigned>(s, *d, 1, 0, true); d = succ(s, d); } d->ListOfSamplesSet(wsamples<unsigned>(p, 1)); if (life) { use<unsigned>(s, *d, 1, 0, true); d = succ(s, d); } o->d.reset(d); } for (auto& q : p) o->t[q.x] += q.w; o->one_m = {DEF}; o->list_m = {DEF, RIP}; o->pr = [d](std::vector<double>& q) { for (auto& x : parts<unsigned>(*d)) { q.push_back(x.x[0]); q.push_back(x.w); } }; return std::unique_ptr<Dens>(o.release()); }
  if (k == 4) { // mixture of discrete densities
    int n = s.range(1, 6), nc = s.range(1, 5); std::vector<std::unique_ptr<DiscretePdf> > own; std::vector<DiscretePdf*> raw; std::vector<DV> comp; for (int i = 0; i < nc; i++) { own.emplace_back(new DiscretePdf(n)); std::vector<Probability> v = pv(rdist(s, n, 250)); own[i]->ProbabilitiesSet(v); comp.push_back(probs(*own[i])); raw.push_back(own[i].get()); }
    auto o = std::unique_ptr<Disc<int> >(new Disc<int>(1)); o->name = "mixture of discrete densities"; Mixture<int>* m; DV w = rdist(s, nc, 250); { Sut sut; m = new Mixture<int>(raw); auto ev = [&]() { m->ProbabilityGet((int)s.draw(n)); m->ExpectedValueGet(); }; if (life) { std::vector<Probability> q = pv(rdist(s, nc, 250)); m->WeightsSet(q); use<int>(s, *m, 1, ev, true); m = succ(s, m); } std::vector<Probability> v = pv(w); m->WeightsSet(v); if (life) { use<int>(s, *m, 1, ev, true); m = succ(s, m); } o->d.reset(m); } std::vector<Probability> g = m->WeightsGet(); for (int x = 0; x < n; x++) for (int c = 0; c < nc; c++) o->t[Key(1, x)] += (double)g[c] * (double)comp[c][x]; o->one_m = {DEF}; o->list_m = {DEF, RIP}; o->pr = [m, n](std::vector<double>& q) { for (auto x : m->WeightsGet()) q.push_back((double)x); for (int i = 0; i < n; i++) q.push_back((double)m->ProbabilityGet(i)); }; return std::unique_ptr<Dens>(o.release()); }
  if (k == 5) { int dim = s.range(1, 3); auto o = std::unique_ptr<Mix>(new Mix(dim)); C_ c; c.kind = 1; c.w = 1; c.a = rvec(s, dim, 3); c.b = rvec(s, dim, 3); for (auto& x : c.b) x = std::fabs((double)x) + 1.0L / 16; o->c.push_back(c); o->name = "uniform density"; Uniform* u; { Sut sut; if (s.draw(2)) u = new Uniform(cv(c.a), cv(c.b)); else { u = new Uniform(dim); u->UniformSet(cv(c.a), cv(c.b)); } if (life) { auto ev = [&]() { u->ProbabilityGet(cv(c.a)); }; ref::V w = c.b; for (auto& x : w) x *= 2; u->UniformSet(cv(rvec(s, dim, 3)), cv(w)); use<ColumnVector>(s, *u, dim, ev, false); u = succ(s, u); u->UniformSet(cv(c.a), cv(c.b)); use<ColumnVector>(s, *u, dim, ev, false); u = succ(s, u); } o->d.reset(u); } o->one_m = {DEF}; o->list_m = {DEF}; o->pr = [u, dim](std::vector<double>& q) { for (auto v : rv(u->CenterGet())) q.push_back((double)v); for (auto v : rv(u->WidthGet())) q.push_back((double)v); }; return std::unique_ptr<Dens>(o.release()); }
  if (k == 6) { int dim = s.range(1, 3), nc = s.range(1, 4); auto o = std::unique_ptr<Mix>(new Mix(dim)); std::vector<std::unique_ptr<Pdf<ColumnVector> > > own; std::vector<Pdf<ColumnVector>*> raw; for (int i = 0; i < nc; i++) { C_ c; c.kind = s.draw(2); c.w = 0; c.a = rvec(s, dim, 4); c.b = rvec(s, dim, 2); for (auto& x : c.b) x = std::fabs((double)x) + 0.25L; c.S = rspd(s, dim, 0.1, 2, s.draw(2)); if (c.kind == 0) own.emplace_back(new Gaussian(cv(c.a), csym(c.S))); else own.emplace_back(new Uniform(cv(c.a), cv(c.b))); raw.push_back(own[i].get()); o->c.push_back(c); }
    o->name = "mixture of Gaussian and uniform densities"; Mixture<ColumnVector>* m; DV w = rdist(s, nc, 250); { Sut sut; m = new Mixture<ColumnVector>(raw); auto ev = [&]() { m->ProbabilityGet(cv(o->c[0].a)); }; if (life) { std::vector<Probability> q = pv(rdist(s, nc, 250)); m->WeightsSet(q); use<ColumnVector>(s, *m, dim, ev, true); m = succ(s, m); if (s.draw(2)) for (int i = 0; i < nc; i++) if (o->c[i].kind == 0) { Gaussian* g = (Gaussian*)m->ComponentGet(i); o->c[i].a = rvec(s, dim, 4); o->c[i].S = rspd(s, dim, 0.1, 2, s.draw(2)); g->ExpectedValueSet(cv(o->c[i].a)); g->CovarianceSet(csym(o->c[i].S)); } } std::vector<Probability> v = pv(w); m->WeightsSet(v); if (life) { use<ColumnVector>(s, *m, dim, ev, true); m = succ(s, m); } o->d.reset(m); } std::vector<Probability> g = m->WeightsGet(); for (int i = 0; i < nc; i++) o->c[i].w = (double)g[i]; o->one_m = {DEF}; o->list_m = {DEF, RIP}; ColumnVector at = cv(o->c[0].a); o->pr = [m, at](std::vector<double>& q) { for (auto x : m->WeightsGet()) q.push_back((double)x); q.push_back((double)m->ProbabilityGet(at)); }; return std::unique_ptr<Dens>(o.release()); }
  // Gaussian family
  auto o = std::unique_ptr<Gau>(new Gau(1)); int form = s.draw(5);
  if (form <= 1) { int dim = s.range(1, 5); o->dim = dim; o->mu = rvec(s, dim, 4); o->S = rspd(s, dim, 0.05, 4, s.draw(2)); if (dim > 1 && s.chance(200)) o->singular(s); else if (s.chance(200)) for (int i = 0; i < dim; i++) if (s.draw(2)) { o->deg.push_back(i); for (int j = 0; j < dim; j++) o->S(i, j) = o->S(j, i) = 0; } auto g = std::make_shared<std::unique_ptr<Gaussian> >(); { Sut sut; if (s.draw(2)) g->reset(new Gaussian(cv(o->mu), csym(o->S))); else { g->reset(new Gaussian(dim)); (*g)->ExpectedValueSet(cv(o->mu)); (*g)->CovarianceSet(csym(o->S)); } if (life) { auto ev = [&]() { (*g)->ProbabilityGet(cv(rvec(s, dim, 3))); }; (*g)->ExpectedValueSet(cv(rvec(s, dim, 4))); (*g)->CovarianceSet(csym(rspd(s, dim, 0.05, 4, s.draw(2)))); use<ColumnVector>(s, **g, dim, ev, false); g->reset(succ(s, g->release())); bool first = s.draw(2); if (first) (*g)->ExpectedValueSet(cv(o->mu)); (*g)->CovarianceSet(csym(o->S)); if (!first) (*g)->ExpectedValueSet(cv(o->mu)); if (o->deg.empty()) use<ColumnVector>(s, **g, dim, ev, false); g->reset(succ(s, g->release())); } } Gaussian* p = g->get(); o->keep.push_back(g); o->name = "Gaussian density"; o->get = [p]() -> const Pdf<ColumnVector>& { return *p; }; o->pr = [p](std::vector<double>& q) { for (auto v : rv(p->ExpectedValueGet())) q.push_back((double)v); for (auto v : rm(p->CovarianceGet()).a) q.push_back((double)v); }; o->one_m = {DEF, CHO}; o->list_m = {DEF, CHO}; return std::unique_ptr<Dens>(o.release()); }
  int n = s.range(1, 4), d = s.range(1, 4), nu = s.draw(2) ? s.range(1, 3) : 0; bool lin = s.draw(3) != 0; bool sys = form == 3, meas = form == 4; if (sys) d = n;
  if ((sys || meas) && nu && n != nu) { if (sys) nu = n; }
  Fun f = mkfun(s, n, d, nu, lin, 0.05, 2, sys); ref::V x = rvec(s, n, 2), u = rvec(s, nu, 2); o->dim = d; o->mu = f.f(x, u); if (lin && d > 1 && s.chance(200)) { o->singular(s); f.C = o->S; } o->S = f.S(x, u);
  ColumnVector cx = cv(x), cu = cv(u);
  if (sys) { auto M = std::make_shared<SysM>(); mksys(*M, f); o->keep.push_back(M); o->name = "system model simulation"; SysM* m = M.get(); o->usesim = true; o->sim_ = [m, cx, cu, nu]() { Sut sut; return nu ? rv(m->model->Simulate(cx, cu, SampleMthd::DEFAULT, NULL)) : rv(m->model->Simulate(cx, SampleMthd::DEFAULT, NULL)); }; o->pr = [](std::vector<double>&) {}; o->get = [m]() -> const Pdf<ColumnVector>& { return *m->pdf; }; o->one_m = {DEF}; return std::unique_ptr<Dens>(o.release()); }
  if (meas) { auto M = std::make_shared<MeasM>(); mkmeas(*M, f); o->keep.push_back(M); o->name = "measurement model simulation"; MeasM* m = M.get(); o->usesim = true; o->sim_ = [m, cx, cu, nu]() { Sut sut; return nu ? rv(m->model->Simulate(cx, cu, SampleMthd::DEFAULT, NULL)) : rv(m->model->Simulate(cx, SampleMthd::DEFAULT, NULL)); }; o->pr = [](std::vector<double>&) {}; o->get = [m]() -> const Pdf<ColumnVector>& { return *m->pdf; }; o->one_m = {DEF}; return std::unique_ptr<Dens>(o.release()); }
  struct H { std::unique_ptr<Gaussian> nz; std::unique_ptr<AnalyticConditionalGaussian> p; }; auto hh = std::make_shared<H>(); hh->p.reset(mkpdf(f, hh->nz)); AnalyticConditionalGaussian* p = hh->p.get(); o->keep.push_back(hh); if (life) { auto ev = [&]() { if (o->deg.empty()) p->ProbabilityGet(cv(rvec(s, d, 3))); }; { Sut sut; p->ConditionalArgumentSet(0, cv(rvec(s, n, 2))); if (nu) p->ConditionalArgumentSet(1, cv(rvec(s, nu, 2))); } use<ColumnVector>(s, *p, d, ev, false); { Sut sut; p->ConditionalArgumentSet(0, cx); } use<ColumnVector>(s, *p, d, ev, false); } { Sut sut; p->ConditionalArgumentSet(0, cx); if (nu) p->ConditionalArgumentSet(1, cu); }
  o->name = "conditional Gaussian density"; o->get = [p]() -> const Pdf<ColumnVector>& { return *p; }; o->pr = [p](std::vector<double>& q) { for (auto v : rv(p->ExpectedValueGet())) q.push_back((double)v); for (auto v : rm(p->CovarianceGet()).a) q.push_back((double)v); }; o->one_m = {DEF, CHO}; o->list_m = {DEF, CHO}; return std::unique_ptr<Dens>(o.release());
}
const char* mname(SampleMthd m) { return m == RIP ? "RIPLEY" : m == CHO ? "CHOLESKY" : "DEFAULT"; }
// Thousands of entries, the last ones impossible, and one long ordered list whose last word is the largest there is: the rounding of the cumulative sums must not open a gap.
void big_support(Sim& s) {
  int kind = s.draw(3), n = kind == 2 ? s.range(500, 5000) : s.range(2000, 20000), tail = s.draw(4) ? s.range(1, 40) : 0, N = s.draw(3) ? s.range(10000, 40000) : s.range(40000, 150000); bool flat = s.draw(2);
  s.ev("big density", "kind %d, %d entries, %d impossible at the end, list of %d", kind, n, tail, N); s.fault("extreme_words"); s.probe("big_support");
  DV w(n); for (int i = 0; i < n - tail; i++) w[i] = flat ? 1 : s.chance(200) ? 0.0L : (ref::R)s.real(0.01, 1); w[0] = 1;
  std::vector<char> ok; std::vector<long> got; WordStream words(s.seed64()); bool done; 
  for (int i = 0; i < N; i++) words.script.push_back(words.p.next() >> 32); words.script.back() = s.draw(4) ? 0xffffffffu : 0xfffffffeu; if (s.draw(3) == 0) words.script[0] = 0;
  if (kind == 0) { std::unique_ptr<DiscretePdf> d; std::vector<Sample<int> > l; { Sut sut; d.reset(new DiscretePdf(n)); std::vector<Probability> v = pv(w); d->ProbabilitiesSet(v); UseStream us(words); done = d->SampleFrom(l, N, RIP, NULL); } for (auto& x : l) got.push_back(x.ValueGet()); }
  else if (kind == 1) { std::unique_ptr<MCPdf<unsigned> > d; Parts p; for (int i = 0; i < n; i++) { P q; q.x = Key(1, i); q.w = (double)w[i]; p.push_back(q); } std::vector<Sample<unsigned> > l; { Sut sut; d.reset(new MCPdf<unsigned>(n, 1)); d->ListOfSamplesSet(wsamples<unsigned>(p, 1)); UseStream us(words); done = d->SampleFrom(l, N, RIP, NULL); } for (auto& x : l) got.push_back(x.ValueGet()); }
  else { std::vector<std::unique_ptr<DiscretePdf> > own; std::vector<DiscretePdf*> raw; for (int i = 0; i < 2; i++) { own.emplace_back(new DiscretePdf(2)); own[i]->ProbabilitySet(i, Probability(1.0)); } for (int i = 0; i < n; i++) raw.push_back(own[w[i] > 0 ? 0 : 1].get()); std::unique_ptr<Mixture<int> > m; std::vector<Sample<int> > l; { Sut sut; m.reset(new Mixture<int>(raw)); std::vector<Probability> v = pv(w); m->WeightsSet(v); UseStream us(words); done = m->SampleFrom(l, N, RIP, NULL); } for (auto& x : l) if (x.ValueGet() != 0) s.fail("outside-support", "mixture of %d components: sampled from one without weight", n); return; }
  if (!done) s.fail("refused", "refused to give %d samples", N); if ((int)got.size() != N) s.fail("sample-count", "asked for %d samples, got %zu", N, got.size());
  for (long x : got) if (x < 0 || x >= n || !(w[x] > 0)) s.fail("outside-support", "%s density with %d entries, list of %d (RIPLEY): entry %ld has no weight", kind ? "sample-based" : "discrete", n, N, x);
}
}
SCENARIO(C06, 2) {
  if (s.config >= 1 && s.chance(4)) return big_support(s);
  std::unique_ptr<Dens> d = mkdens(s); WordStream words(s.seed64());
  if (s.config >= 1) { words.mode = 1; words.inj = s.draw(3) == 0 ? 1000 : 50 + s.draw(900); s.fault("extreme_words"); int k = s.range(0, 8); static const uint32_t X[] = {0, 0xffffffffu, 1, 0xfffffffeu, 0x80000000u, 0x7fffffffu, 0xffffff00u}; for (int i = 0; i < k; i++) words.script.push_back(X[s.draw(7)]); }
  UseStream us(words); std::vector<double> f0, f1; d->print(f0); int rounds = s.range(1, 12);
  for (int r = 0; r < rounds; r++) {
    if (d->list_m.empty() || s.draw(2)) { SampleMthd m = d->one_m[s.draw(d->one_m.size())]; Key k; s.ev((std::string("draw one ") + d->name).c_str(), "%s", mname(m)); if (!d->one(k, m)) s.fail("refused", "%s refused to give a sample", d->name); for (double v : k) s.h(v); if (!d->in(k)) s.fail("outside-support", "%s, one sample (%s): %s is not in the support", d->name, mname(m), str(k).c_str()); }
    else { SampleMthd m = d->list_m[s.draw(d->list_m.size())]; unsigned n = s.chance(60) ? 0 : s.range(1, s.chance(100) ? 300 : 12), pre = s.draw(3) ? 0 : s.draw(2) ? n : s.range(0, 20); std::vector<Key> v; s.ev((std::string("draw list ") + d->name).c_str(), "%s n=%u preset %u", mname(m), n, pre); if (!d->many(v, n, pre, m)) s.fail("refused", "%s refused to give %u samples", d->name, n); if (v.size() != n) s.fail("sample-count", "%s: asked for %u samples (%s), got %zu", d->name, n, mname(m), v.size()); for (auto& k : v) { for (double x : k) s.h(x); if (!d->in(k)) s.fail("outside-support", "%s, list of %u (%s): %s is not in the support", d->name, n, mname(m), str(k).c_str()); } }
  }
  d->print(f1); if (f0 != f1) s.fail("changed-by-sampling", "%s changed while being sampled", d->name);
}
SCENARIO(C07, 2) {
  std::unique_ptr<Dens> d = mkdens(s); WordStream words(s.seed64()); UseStream us(words); std::vector<double> f0, f1; d->print(f0);
  int M = s.chance(100) ? s.range(4000, 12000) : s.range(200, 1500); bool asone = d->list_m.empty() || s.draw(2); std::vector<Key> v; std::string how; bool ordered = false;
  std::unique_ptr<Dens> other; WordStream w2(s.seed64()); if (s.config >= 1) { other = mkdens(s); s.fault("foreign_activity"); }
  auto disturb = [&]() { if (!other || !s.chance(30)) return; UseStream u2(w2); Key k; if (v.size() < 200) s.ev("foreign draw"); other->one(k, other->one_m[0]); };   // someone else samples in between
  if (asone) { SampleMthd m = d->one_m[s.draw(d->one_m.size())]; how = std::string("one by one, ") + mname(m); s.ev((std::string(d->name) + " " + how).c_str(), "%d", M); s.ev(M > 3000 ? "large" : M > 700 ? "medium" : "small"); for (int i = 0; i < M; i++) { Key k; if (!d->one(k, m)) s.fail("refused", "%s refused to give a sample", d->name); v.push_back(k); disturb(); } }
  else { SampleMthd m = d->list_m[s.draw(d->list_m.size())]; unsigned n = s.draw(2) ? M : s.range(1, 20); ordered = m == RIP; how = std::string("lists of ") + std::to_string(n) + ", " + mname(m); s.ev((std::string(d->name) + " " + how).c_str()); s.ev(M > 3000 ? "large" : M > 700 ? "medium" : "small"); while ((int)v.size() < M) { std::vector<Key> l; if (!d->many(l, n, 0, m) || l.size() != n) s.fail("refused", "%s refused to give %u samples", d->name, n); v.insert(v.end(), l.begin(), l.end()); disturb(); } }
  for (auto& k : v) { for (double x : k) s.h(x); if (!d->in(k)) s.fail("outside-support", "%s, %s: %s is not in the support", d->name, how.c_str(), str(k).c_str()); }
  d->statistics(s, v, how.c_str(), ordered); d->print(f1); if (f0 != f1) s.fail("changed-by-sampling", "%s changed while being sampled", d->name); s.probe("statistics");
}
