#include "dmodels.h"
#include "pmodels.h"
#include <pdf/mixture.h>
#include <pdf/uniform.h>
using namespace W;
namespace {
double pval(Sim& s) { switch (s.draw(6)) { case 0: return 0.0; case 1: return 1.0; case 2: return 1e-12; case 3: return 1 - 1e-12; default: return s.real(0, 1); } }
WordStream mkwords(Sim& s) { WordStream w(s.seed64()); if (s.config >= 1 && s.draw(2)) { w.mode = 1; w.inj = 100 + s.draw(700); } return w; }
// reference of "set element k to a": others rescaled proportionally, or spread when they carried nothing
DV set_one(const DV& v, int k, double a) { DV o = v; ref::R t = 0; for (size_t i = 0; i < v.size(); i++) if ((int)i != k) t += v[i]; for (size_t i = 0; i < v.size(); i++) if ((int)i != k) o[i] = t > 0 ? v[i] / t * (1 - (ref::R)a) : (1 - (ref::R)a) / (v.size() - 1); o[k] = a; return o; }
// Weights a caller has normalised himself, with some rounding of his own (float arithmetic, printed and read back).
ref::R nearly_one(Sim& s) { ref::R e = 1; for (int k = s.range(1, 14); k > 0; k--) e /= 10; return 1 + (ref::R)s.sym(5) * e; }
DV bigweights(Sim& s, int n, bool zero) { DV v(n); ref::R t = 0; for (auto& x : v) { x = zero || s.chance(200) ? 0.0L : (ref::R)(s.chance(200) ? s.real(10, 1e6) : s.real(1e-3, 1)); t += x; } if (!zero && t <= 0) { v[s.draw(n)] = 1; t = 1; }
  if (!zero && s.chance(200)) { ref::R f = nearly_one(s) / t; for (auto& x : v) x = (double)(x * f); } return v; }

// Distribution of the sampler after an edit history (exact Chernoff bound, log-evidence 34), with plain random words.
const double EV = 34;
void bin(Sim& s, const char* what, const char* how, const std::string& v, double n, double p, double c) { double e = binom_evidence(n, std::min(1.0, p), c); if (!(e <= EV)) s.fail("stale-sampler", "%s: %s, %s drawn %.0f times in %.0f, probability %.9g (log evidence %.1f)", what, how, v.c_str(), c, n, p, e); }
template <class T> std::vector<Key> draws(Sim& s, const Pdf<T>& d, int dim, bool ripley, const char*& how) {
  WordStream w(s.seed64()); UseStream us(w); int N = s.range(100, 900); std::vector<Key> o; int m = s.draw(ripley ? 3 : 2); std::vector<Sample<T> > l; how = m == 0 ? "one by one" : m == 1 ? "list" : "list (RIPLEY)"; s.probe("distribution"); Sut sut;
  if (m == 0) for (int i = 0; i < N; i++) { Sample<T> x(dim); d.SampleFrom(x, SampleMthd::DEFAULT, NULL); o.push_back(TT<T>::key(x.ValueGet())); }
  else { int n = s.draw(2) ? N : s.range(1, 12); while ((int)o.size() < N) { d.SampleFrom(l, n, m == 1 ? SampleMthd::DEFAULT : SampleMthd::RIPLEY, NULL); if ((int)l.size() != n) s.fail("sample-count", "%zu samples, asked for %d", l.size(), n); for (auto& x : l) o.push_back(TT<T>::key(x.ValueGet())); } }
  return o; }
template <class T> void dist(Sim& s, const char* what, const Pdf<T>& d, int dim, bool ripley, const std::map<Key, double>& t) { const char* how; std::vector<Key> v = draws<T>(s, d, dim, ripley, how); std::map<Key, double> c; for (auto& k : v) { c[k]++; if (!t.count(k)) s.fail("stale-sampler", "%s: %s drawn, which is not a value of the density", what, str(k).c_str()); } for (auto& kv : t) bin(s, what, how, str(kv.first), v.size(), kv.second, c[kv.first]); }
bool now(Sim& s, int t, int ops) { return t == ops - 1 ? s.chance(700) : s.chance(60); }
void discrete_edits(Sim& s) {
  WordStream words = mkwords(s); UseStream us(words);
  struct O { std::unique_ptr<DiscretePdf> d; DV m; }; std::vector<O> pool; int ops = s.range(1, 30);
  auto fresh = [&]() { O o; int n = s.chance(150) ? 1 : s.range(2, 12); { Sut sut; o.d.reset(new DiscretePdf(n)); } o.m = DV(n, 1.0L / n); pool.push_back(std::move(o)); };
  fresh();
  auto check = [&](const char* what) { for (size_t k = 0; k < pool.size(); k++) { O& o = pool[k]; int n = o.m.size(); DV g = probs(*o.d); cmp_probs(s, what, "probabilities", g, o.m); for (auto x : g) s.h((double)x); if ((int)o.d->NumStatesGet() != n) s.fail("num-states", "%s: %u states, expected %d", what, o.d->NumStatesGet(), n);
      int mp = o.d->MostProbableStateGet(); if (mp < 0 || mp >= n) s.fail("most-probable", "%s: most probable state %d of %d", what, mp, n); for (int i = 0; i < n; i++) { if (g[i] > g[mp] + 1e-12L) s.fail("most-probable", "%s: state %d reported although %d is more probable", what, mp, i); if (o.d->ProbabilityGet(i) != (double)g[i]) s.fail("probability-query", "%s: ProbabilityGet(%d) disagrees", what, i); }
      // the sampler must use the current probabilities
      Sample<int> x; { Sut sut; o.d->SampleFrom(x); } int v = x.ValueGet(); s.h(v); if (v < 0 || v >= n || !(g[v] > 0)) s.fail("stale-sampler", "%s: sampled state %d has probability %g", what, v, v >= 0 && v < n ? (double)g[v] : -1.0); o.m = g; } };
  check("construction");
  for (int t = 0; t < ops; t++) { size_t k = s.draw(pool.size()); O& o = pool[k]; int n = o.m.size(); const char* what = "?"; bool ok;
    switch (s.draw(6)) {
      case 0: case 1: { what = "set one probability"; int i = s.draw(n); double a = pval(s); { Sut sut; ok = o.d->ProbabilitySet(i, Probability(a)); } if (n == 1) { if (ok != (a == 1.0)) s.fail("single-state", "setting the only state to %g returned %d", a, (int)ok); } else { if (!ok) s.fail("edit-refused", "%s refused", what); o.m = set_one(o.m, i, a); } s.ev(what, "obj %zu state %d p %g", k, i, a); break; }
      case 2: { what = "set all probabilities"; bool zero = s.config >= 1 && s.chance(250); DV w = bigweights(s, n, zero); std::vector<Probability> v = pv(w); { Sut sut; ok = o.d->ProbabilitiesSet(v); } if (zero) { s.fault("zero_weights"); if (ok) s.fail("zero-accepted", "all-zero probabilities accepted"); } else { if (!ok) s.fail("edit-refused", "%s refused", what); o.m = dnorm(w); } s.ev(what, "obj %zu zero=%d", k, zero); break; }
      case 3: { what = "copy"; if (pool.size() < 4) { O c; { Sut sut; if (s.draw(2)) c.d.reset(o.d->Clone()); else c.d.reset(new DiscretePdf(*o.d)); } c.m = o.m; pool.push_back(std::move(c)); } s.ev(what, "obj %zu", k); break; }
      case 4: { what = "assign"; size_t j = s.draw(pool.size()); { Sut sut; *pool[j].d = *o.d; } pool[j].m = o.m; s.ev(what, "%zu <- %zu", j, k); break; }
      default: { what = "new/destroy"; if (pool.size() > 1 && s.draw(2)) pool.erase(pool.begin() + k); else if (pool.size() < 4) fresh(); s.ev(what); }
    }
    check(what); if (now(s, t, ops)) for (auto& o : pool) { std::map<Key, double> m; for (size_t i = 0; i < o.m.size(); i++) m[Key(1, i)] = (double)o.m[i]; dist<int>(s, what, *o.d, 1, true, m); } }
}
struct Comp { int kind; ref::V a, b; ref::M S; DV d; }; // 0 Gaussian 1 Uniform(center a,width b) 2 discrete
Comp rcomp(Sim& s, int dim) { Comp c; c.kind = s.draw(3) ? 0 : 1; c.a = rvec(s, dim, 3); if (c.kind == 0) c.S = rspd(s, dim, 0.2, 4, s.draw(2)); else { c.b = rvec(s, dim, 1); for (auto& x : c.b) x = std::fabs((double)x) + 0.5; } return c; }
Pdf<ColumnVector>* mkcomp(const Comp& c) { if (c.kind == 0) return new Gaussian(cv(c.a), csym(c.S)); return new Uniform(cv(c.a), cv(c.b)); }
ref::R cpdf(const Comp& c, const ref::V& x) { if (c.kind == 0) return ref::gausspdf(x, c.a, c.S); ref::R h = 1; for (size_t i = 0; i < x.size(); i++) { if (std::fabs((double)(x[i] - c.a[i])) > (double)c.b[i] / 2) return 0; h /= c.b[i]; } return h; }
double ccdf(const Comp& c, int i, double t) { if (c.kind == 0) return 0.5 * std::erfc(-(t - (double)c.a[i]) / std::sqrt(2.0 * (double)c.S(i, i))); double f = (t - (double)(c.a[i] - c.b[i] / 2)) / (double)c.b[i]; return f < 0 ? 0 : f > 1 ? 1 : f; }
struct Hm { std::unique_ptr<Mixture<ColumnVector> > d; std::vector<Comp> c; DV w; };
void mixture_edits(Sim& s) {
  int dim = s.range(1, 3); WordStream words = mkwords(s); UseStream us(words); std::vector<Hm> pool; int ops = s.range(1, 25);
  auto fresh = [&]() { Hm o; if (s.draw(2)) { Sut sut; o.d.reset(new Mixture<ColumnVector>((unsigned)dim)); } else { int n = s.range(1, 4); std::vector<std::unique_ptr<Pdf<ColumnVector> > > own; std::vector<Pdf<ColumnVector>*> raw; for (int i = 0; i < n; i++) { o.c.push_back(rcomp(s, dim)); own.emplace_back(mkcomp(o.c[i])); raw.push_back(own[i].get()); } { Sut sut; o.d.reset(new Mixture<ColumnVector>(raw)); } o.w = DV(n, 1.0L / n); } pool.push_back(std::move(o)); };
  fresh();
  auto check = [&](const char* what) { for (auto& o : pool) { if (o.d->NumComponentsGet() != o.c.size()) s.fail("component-count", "%s: %u components, expected %zu", what, o.d->NumComponentsGet(), o.c.size()); if (o.c.empty()) continue; if (o.d->DimensionGet() != (unsigned)dim) s.fail("dimension", "%s: dimension %u, expected %d", what, o.d->DimensionGet(), dim);
      std::vector<Probability> gw = o.d->WeightsGet(); DV g; for (size_t i = 0; i < gw.size(); i++) { g.push_back((double)gw[i]); s.h((double)gw[i]); if (o.d->WeightGet(i) != gw[i]) s.fail("weight-query", "%s: WeightGet disagrees with WeightsGet", what); } cmp_probs(s, what, "weights", g, o.w);
      int mp = o.d->MostProbableComponentGet(); if (mp < 0 || mp >= (int)g.size()) s.fail("most-probable", "%s: most probable component %d", what, mp); for (size_t i = 0; i < g.size(); i++) if (g[i] > g[mp] + 1e-12L) s.fail("most-probable", "%s: component %d reported although %zu has more weight", what, mp, i);
      ref::V x = rvec(s, dim, 3); ref::R p = 0; bool edge = false; ref::V mu(dim, 0); for (size_t i = 0; i < g.size(); i++) { p += g[i] * cpdf(o.c[i], x); for (int j = 0; j < dim; j++) mu[j] += g[i] * o.c[i].a[j]; if (o.c[i].kind == 1) for (int j = 0; j < dim; j++) if (std::fabs(std::fabs((double)(x[j] - o.c[i].a[j])) - (double)o.c[i].b[j] / 2) < 1e-9) edge = true; }
      double gp; bool gauss = true; for (auto& c : o.c) if (c.kind) gauss = false; { Sut sut; gp = o.d->ProbabilityGet(cv(x)); } s.h(gp); if (!edge && !close(gp, (double)p, 1e-9 * (1 + (double)p))) s.fail("density", "%s: density %.12g, expected %.12g", what, gp, (double)p);
      if (gauss) { ref::V gm; { Sut sut; gm = rv(o.d->ExpectedValueGet()); } for (int j = 0; j < dim; j++) if (!close((double)gm[j], (double)mu[j], 1e-9 * 10)) s.fail("mean", "%s: mean %s, expected %s", what, str(gm).c_str(), str(mu).c_str()); }
      Sample<ColumnVector> y(dim); { Sut sut; o.d->SampleFrom(y); } ref::V yv = rv(y.ValueGet()); bool in = false; for (size_t i = 0; i < g.size(); i++) if (g[i] > 0) { if (o.c[i].kind == 0) in = true; else { bool ok = true; for (int j = 0; j < dim; j++) if (std::fabs((double)(yv[j] - o.c[i].a[j])) > (double)o.c[i].b[j] / 2 + 1e-9) ok = false; in |= ok; } } if (!in) s.fail("stale-sampler", "%s: sample %s lies in no component with weight", what, str(yv).c_str());
      o.w = g; } };
  check("construction");
  for (int t = 0; t < ops; t++) { size_t k = s.draw(pool.size()); Hm& o = pool[k]; int n = o.c.size(); const char* what = "?"; bool ok = true;
    switch (s.draw(9)) {
      case 0: { what = "add component"; if (n > 6) break; Comp c = rcomp(s, dim); std::unique_ptr<Pdf<ColumnVector> > p(mkcomp(c)); { Sut sut; ok = o.d->AddComponent(*p); } if (!ok) s.fail("edit-refused", "%s refused", what); o.c.push_back(c); if (n == 0) o.w = DV(1, 1); else o.w.push_back(0); break; }
      case 1: { what = "add component with weight"; if (n > 6) break; Comp c = rcomp(s, dim); double w = pval(s); std::unique_ptr<Pdf<ColumnVector> > p(mkcomp(c)); { Sut sut; ok = o.d->AddComponent(*p, Probability(w)); } if (!ok) s.fail("edit-refused", "%s refused", what); o.c.push_back(c); if (n == 0) o.w = DV(1, 1); else { o.w.push_back(0); o.w = set_one(o.w, n, w); } break; }
      case 2: { what = "delete component"; if (!n) break; int i = s.draw(n); ref::R others = 0; for (int j = 0; j < n; j++) if (j != i) others += o.w[j]; { Sut sut; ok = o.d->DeleteComponent(i); } if (n > 1 && !(others > 0)) { s.probe("delete_all_weight"); if (ok) s.fail("zero-accepted", "deleted the component carrying all the weight"); } else { if (!ok) s.fail("edit-refused", "%s refused", what); o.c.erase(o.c.begin() + i); o.w.erase(o.w.begin() + i); if (n > 1) o.w = dnorm(o.w); } break; }
      case 3: { what = "set one weight"; if (!n) break; int i = s.draw(n); double w = pval(s); { Sut sut; ok = o.d->WeightSet(i, Probability(w)); } if (n == 1) { if (ok != (w == 1.0)) s.fail("single-state", "setting the only weight to %g returned %d", w, (int)ok); } else { if (!ok) s.fail("edit-refused", "%s refused", what); o.w = set_one(o.w, i, w); } break; }
      case 4: { what = "set all weights"; if (!n) break; bool zero = s.config >= 1 && s.chance(250); DV w = bigweights(s, n, zero); std::vector<Probability> v = pv(w); { Sut sut; ok = o.d->WeightsSet(v); } if (zero) { s.fault("zero_weights"); if (ok) s.fail("zero-accepted", "all-zero weights accepted"); } else { if (!ok) s.fail("edit-refused", "%s refused", what); o.w = dnorm(w); } break; }
      case 5: { what = "copy"; if (pool.size() >= 4) break; Hm c; { Sut sut; if (s.draw(2)) c.d.reset(o.d->Clone()); else c.d.reset(new Mixture<ColumnVector>(*o.d)); } c.c = o.c; c.w = o.w; pool.push_back(std::move(c)); break; }
      case 6: { what = "assign"; size_t j = s.draw(pool.size()); { Sut sut; *pool[j].d = *o.d; } pool[j].c = o.c; pool[j].w = o.w; break; }
      case 7: { what = "edit a component in place"; if (!n) break; int i = s.draw(n); if (o.c[i].kind != 0) break; Gaussian* g = dynamic_cast<Gaussian*>(o.d->ComponentGet(i)); if (!g) s.fail("component-type", "component %d is not the Gaussian that was added", i); if (s.draw(2)) { o.c[i].a = vary(s, o.c[i].a, o.c[0].a, 3); Sut sut; g->ExpectedValueSet(cv(o.c[i].a)); } else { o.c[i].S = varyspd(s, o.c[i].S, o.c[i].S, 0.2, 4); Sut sut; g->CovarianceSet(csym(o.c[i].S)); } break; }
      default: what = "new/destroy"; if (pool.size() > 1 && s.draw(2)) pool.erase(pool.begin() + k); else if (pool.size() < 4) fresh();
    }
    s.ev(what, "obj %zu n=%d", k, n); check(what);
    if (now(s, t, ops)) for (auto& o : pool) if (!o.c.empty()) { const char* how; std::vector<Key> v = draws<ColumnVector>(s, *o.d, dim, true, how); for (int r = 0; r < 5; r++) { int i = s.draw(dim); double th = (double)o.c[s.draw(o.c.size())].a[i] + s.sym(1.5), p = 0, c = 0; for (size_t q = 0; q < o.c.size(); q++) p += (double)o.w[q] * ccdf(o.c[q], i, th); for (auto& y : v) c += y[i] <= th; bin(s, what, how, "a value below a threshold", v.size(), p, c); } } }
}
void dmixture_edits(Sim& s) { // mixture of discrete densities
  int n = s.range(2, 6), nc = s.range(1, 4); WordStream words = mkwords(s); UseStream us(words); std::vector<std::unique_ptr<DiscretePdf> > own; std::vector<DiscretePdf*> raw; std::vector<DV> comp; for (int i = 0; i < nc; i++) { comp.push_back(rdist(s, n, 200)); own.emplace_back(new DiscretePdf(n)); std::vector<Probability> v = pv(comp[i]); own[i]->ProbabilitiesSet(v); raw.push_back(own[i].get()); }
  std::unique_ptr<Mixture<int> > m; { Sut sut; m.reset(new Mixture<int>(raw)); } DV w(nc, 1.0L / nc); int ops = s.range(1, 15);
  for (int t = 0; t < ops; t++) { const char* what = "?"; switch (s.draw(3)) { case 0: { what = "set one weight"; if (nc == 1) break; int i = s.draw(nc); double a = pval(s); { Sut sut; m->WeightSet(i, Probability(a)); } w = set_one(w, i, a); break; } case 1: { what = "set all weights"; w = bigweights(s, nc, false); std::vector<Probability> v = pv(w); { Sut sut; m->WeightsSet(v); } w = dnorm(w); break; } default: { what = "set component probability"; int i = s.draw(nc), k = s.draw(n); double a = pval(s); { Sut sut; dynamic_cast<DiscretePdf*>(m->ComponentGet(i))->ProbabilitySet(k, Probability(a)); } comp[i] = set_one(comp[i], k, a); } }
    s.ev(what); std::vector<Probability> gw = m->WeightsGet(); DV g; for (size_t i = 0; i < gw.size(); i++) g.push_back((double)gw[i]); cmp_probs(s, what, "weights", g, w); w = g;
    DV mix(n, 0); for (int c = 0; c < nc; c++) { comp[c] = probs(*dynamic_cast<DiscretePdf*>(m->ComponentGet(c))); for (int x = 0; x < n; x++) mix[x] += w[c] * comp[c][x]; } for (int x = 0; x < n; x++) { double gp; { Sut sut; gp = m->ProbabilityGet(x); } s.h(gp); if (!close(gp, (double)mix[x], 1e-10)) s.fail("density", "%s: probability of %d is %.12g, expected %.12g", what, x, gp, (double)mix[x]); }
    int ex; { Sut sut; ex = m->ExpectedValueGet(); } for (int x = 0; x < n; x++) if (ex < 0 || ex >= n || mix[x] > mix[ex] + 1e-10L) s.fail("most-probable", "%s: most probable state %d, but %d is more probable", what, ex, x);
    if (now(s, t, ops)) { std::map<Key, double> q; for (int x = 0; x < n; x++) q[Key(1, x)] = (double)mix[x]; dist<int>(s, what, *m, 1, true, q); } }
}
// mixture over the real line: the caller's own densities as components
struct Tri : public Pdf<double> { double a, b; Tri(double a_, double b_) : Pdf<double>(1), a(a_), b(b_) {} virtual Tri* Clone() const { return new Tri(*this); } double val(double x) const { double d = std::fabs(x - a) / b; return d < 1 ? (1 - d) / b : 0; }
  virtual Probability ProbabilityGet(const double& x) const { return Probability(val(x)); } virtual double ExpectedValueGet() const { return a; } virtual bool SampleFrom(Sample<double>& o, const SampleMthd = SampleMthd::DEFAULT, void* = NULL) const { o.ValueSet(a + b * (runif() + runif() - 1)); return true; } };
void smixture_edits(Sim& s) {
  int nc = s.range(1, 4); WordStream words = mkwords(s); UseStream us(words); std::vector<std::unique_ptr<Tri> > own; std::vector<Pdf<double>*> raw; auto tri = [&]() { return Tri((double)q12(s.sym(5)), (double)q12(s.real(0.25, 2))); }; std::vector<Tri> c; for (int i = 0; i < nc; i++) { c.push_back(tri()); own.emplace_back(c[i].Clone()); raw.push_back(own[i].get()); }
  std::unique_ptr<Mixture<double> > m; { Sut sut; m.reset(new Mixture<double>(raw)); } DV w(nc, 1.0L / nc); int ops = s.range(1, 15);
  for (int t = 0; t < ops; t++) { const char* what = "?"; switch (s.draw(5)) { case 0: { what = "set one weight"; if (nc == 1) break; int i = s.draw(nc); double a = pval(s); { Sut sut; m->WeightSet(i, Probability(a)); } w = set_one(w, i, a); break; } case 1: { what = "set all weights"; w = bigweights(s, nc, false); std::vector<Probability> v = pv(w); { Sut sut; m->WeightsSet(v); } w = dnorm(w); break; } case 2: { what = "edit a component"; int i = s.draw(nc); c[i].a = (double)q12(s.sym(5)); ((Tri*)m->ComponentGet(i))->a = c[i].a; break; } case 3: { what = "replace by a copy"; Sut sut; if (s.draw(2)) m.reset(m->Clone()); else m.reset(new Mixture<double>(*m)); break; } default: what = "edit the caller's component"; own[s.draw(nc)]->a += 1; }
    s.ev(what); std::vector<Probability> gw = m->WeightsGet(); DV g; for (size_t i = 0; i < gw.size(); i++) g.push_back((double)gw[i]); cmp_probs(s, what, "weights", g, w); w = g;
    for (int k = 0; k < 2; k++) { double x = c[s.draw(nc)].a + s.sym(1.5), p = 0, gp; for (int i = 0; i < nc; i++) p += (double)w[i] * c[i].val(x); { Sut sut; gp = m->ProbabilityGet(x); } s.h(gp); if (!close(gp, p, 1e-10 * (1 + p))) s.fail("density", "%s: density %.12g, expected %.12g", what, gp, p); }
    double mu = 0, gm; for (int i = 0; i < nc; i++) mu += (double)w[i] * c[i].a; { Sut sut; gm = m->ExpectedValueGet(); } s.h(gm); if (!close(gm, mu, 1e-10 * (1 + std::fabs(mu)))) s.fail("mean", "%s: mean %.12g, expected %.12g", what, gm, mu);
    Sample<double> y(1); { Sut sut; m->SampleFrom(y); } double v = y.ValueGet(); bool in = false; for (int i = 0; i < nc; i++) if (w[i] > 0 && std::fabs(v - c[i].a) <= c[i].b * (1 + 1e-12)) in = true; if (!in) s.fail("stale-sampler", "%s: sampled %.9g, outside every component with weight", what, v); } }
template <class T> void mc_edits(Sim& s) {
  int dim = std::is_same<T, ColumnVector>::value ? s.range(1, 3) : 1; WordStream words = mkwords(s); UseStream us(words); struct O { std::unique_ptr<MCPdf<T> > d; Parts m; }; std::vector<O> pool; int ops = s.range(1, 20);
  bool wide = std::is_same<T, unsigned>::value && s.draw(3) == 0; auto rparts = [&](int n, bool zero) { Parts p; double t = 0; for (int i = 0; i < n; i++) { P q; q.x = rkey<T>(s, dim, 5); if (wide) q.x[0] = std::floor(s.real(0, 4.29e9)); q.w = zero || s.chance(150) ? 0 : (s.chance(150) ? s.real(10, 1e5) : s.real(0.01, 1)); t += q.w; p.push_back(q); } if (!zero && t <= 0) { p[0].w = 2; t = 2; } if (!zero && s.chance(200)) { double f = (double)(nearly_one(s) / t); for (auto& q : p) q.w *= f; } return p; };
  auto fresh = [&]() { O o; int n = s.range(1, 12); o.m = rparts(n, false); { Sut sut; o.d.reset(s.draw(2) ? new MCPdf<T>(n, dim) : new MCPdf<T>(0, dim)); if (!o.d->ListOfSamplesSet(wsamples<T>(o.m, dim))) s.fail("edit-refused", "initial samples refused"); } o.m = normalised(o.m); pool.push_back(std::move(o)); };
  fresh();
  auto check = [&](const char* what) { for (auto& o : pool) { Parts g = parts<T>(*o.d); hparts(s, g); if (g.size() != o.m.size() || o.d->NumSamplesGet() != o.m.size()) s.fail("particle-count", "%s: %zu samples, expected %zu", what, g.size(), o.m.size()); for (size_t i = 0; i < g.size(); i++) { if (g[i].x != o.m[i].x) s.fail("sample-value", "%s: sample %zu is %s, expected %s", what, i, str(g[i].x).c_str(), str(o.m[i].x).c_str()); if (!close(g[i].w, o.m[i].w, 1e-11)) s.fail("sample-weight", "%s: sample %zu has weight %.12g, expected %.12g", what, i, g[i].w, o.m[i].w); if (TT<T>::key(o.d->SampleGet(i).ValueGet()) != g[i].x || o.d->SampleGet(i).WeightGet() != g[i].w) s.fail("sample-query", "%s: SampleGet(%zu) disagrees", what, i); }
      valid_parts(s, what, g, o.m.size()); const std::vector<double>& c = o.d->CumulativePDFGet(); if (c.size() != g.size() + 1) s.fail("cumulative-size", "%s: cumulative sums have %zu entries for %zu samples", what, c.size(), g.size()); long double t = 0; for (size_t i = 0; i < g.size(); i++) { if (!close(c[i], (double)t, 1e-9)) s.fail("cumulative", "%s: cumulative sum %zu is %.12g, expected %.12g", what, i, c[i], (double)t); t += g[i].w; if (c[i + 1] < c[i]) s.fail("cumulative", "%s: cumulative sums decrease", what); } if (!close(c.back(), 1, 1e-9)) s.fail("cumulative", "%s: cumulative sum ends at %.12g", what, c.back());
      if (std::is_same<T, ColumnVector>::value) { ref::V mu(dim, 0), gm; for (auto& p : g) for (int i = 0; i < dim; i++) mu[i] += (ref::R)p.w * p.x[i]; ref::M C(dim, dim), gC; for (auto& p : g) for (int i = 0; i < dim; i++) for (int j = 0; j < dim; j++) C(i, j) += (ref::R)p.w * (p.x[i] - mu[i]) * (p.x[j] - mu[j]); { Sut sut; MCPdf<ColumnVector>* q = (MCPdf<ColumnVector>*)(void*)o.d.get(); gC = rm(q->CovarianceGet()); gm = rv(q->ExpectedValueGet()); } for (int i = 0; i < dim; i++) { if (!close((double)gm[i], (double)mu[i], 1e-9)) s.fail("mean", "%s: mean %s, expected %s", what, str(gm).c_str(), str(mu).c_str()); for (int j = 0; j < dim; j++) if (!close((double)gC(i, j), (double)C(i, j), 1e-9)) s.fail("covariance", "%s: covariance %s, expected %s", what, str(gC).c_str(), str(C).c_str()); } }
      if (std::is_same<T, unsigned>::value) { long double mu = 0, C = 0; for (auto& p : g) mu += (long double)p.w * p.x[0]; for (auto& p : g) C += (long double)p.w * (p.x[0] - mu) * (p.x[0] - mu); unsigned gm; double gC; { Sut sut; MCPdf<unsigned>* q = (MCPdf<unsigned>*)(void*)o.d.get(); gC = q->CovarianceGet()(1, 1); gm = q->ExpectedValueGet(); } if (std::fabs((double)(mu - gm)) > 0.5 + 1e-5) s.fail("mean", "%s: mean %u, expected %.9g", what, gm, (double)mu); if (gC < (double)C * (1 - 1e-9) - 1e-9 || gC > (double)C * (1 + 1e-9) + 0.25 + 1e-5) s.fail("covariance", "%s: variance %.9g, expected %.9g", what, gC, (double)C); }
      std::set<Key> pos; for (auto& p : g) if (p.w > 0) pos.insert(p.x); Sample<T> y(dim); { Sut sut; o.d->SampleFrom(y); } if (!pos.count(TT<T>::key(y.ValueGet()))) s.fail("stale-sampler", "%s: sampled %s, which has no weight", what, str(TT<T>::key(y.ValueGet())).c_str());
      o.m = g; } };
  check("construction");
  for (int t = 0; t < ops; t++) { size_t k = s.draw(pool.size()); O& o = pool[k]; const char* what = "?"; bool ok;
    switch (s.draw(7)) {
      case 0: { what = "replace samples"; int n = s.range(1, 14); bool zero = s.config >= 1 && s.chance(250); Parts p = rparts(n, zero); { Sut sut; ok = o.d->ListOfSamplesSet(wsamples<T>(p, dim)); } if (zero) { s.fault("zero_weights"); if (ok) s.fail("zero-accepted", "samples without weight accepted"); } else { if (!ok) s.fail("edit-refused", "%s refused", what); o.m = normalised(p); } break; }
      case 1: { what = "replace samples, unweighted"; int n = s.range(1, 14); std::vector<Sample<T> > l; Parts p = rparts(n, false); for (auto& q : p) { Sample<T> x(dim); x.ValueSet(TT<T>::mk(q.x)); l.push_back(x); q.w = 1.0 / n; } { Sut sut; ok = o.d->ListOfSamplesSet(l); } if (!ok) s.fail("edit-refused", "%s refused", what); o.m = p; break; }
      case 2: { what = "update samples"; bool zero = s.config >= 1 && s.chance(250); Parts p = rparts(o.m.size(), zero); { Sut sut; ok = o.d->ListOfSamplesUpdate(wsamples<T>(p, dim)); } if (zero) { s.fault("zero_weights"); if (ok) s.fail("zero-accepted", "samples without weight accepted"); } else { if (!ok) s.fail("edit-refused", "%s refused", what); o.m = normalised(p); } break; }
      case 3: { what = "update samples, unweighted"; int n = o.m.size(); std::vector<Sample<T> > l; Parts p = rparts(n, false); for (auto& q : p) { Sample<T> x(dim); x.ValueSet(TT<T>::mk(q.x)); l.push_back(x); q.w = 1.0 / n; } { Sut sut; ok = o.d->ListOfSamplesUpdate(l); } if (!ok) s.fail("edit-refused", "%s refused", what); o.m = p; break; }
      case 4: { what = "copy"; if (pool.size() >= 4) break; O c; { Sut sut; if (s.draw(2)) c.d.reset(o.d->Clone()); else c.d.reset(new MCPdf<T>(*o.d)); } c.m = o.m; pool.push_back(std::move(c)); break; }
      case 5: { what = "assign"; size_t j = s.draw(pool.size()); { Sut sut; *pool[j].d = *o.d; } pool[j].m = o.m; break; }
      default: { what = "resize and replace"; int n = s.range(1, 14); Parts p = rparts(n, false); { Sut sut; o.d->NumSamplesSet(s.range(1, 14)); ok = o.d->ListOfSamplesSet(wsamples<T>(p, dim)); } if (!ok) s.fail("edit-refused", "%s refused", what); o.m = normalised(p); }
    }
    s.ev(what, "obj %zu", k); check(what); if (now(s, t, ops)) for (auto& o : pool) { std::map<Key, double> m; for (auto& p : o.m) m[p.x] += p.w; dist<T>(s, what, *o.d, dim, true, m); } }
}
// same parameters, same random words: a density with a history must give the samples of a new one
void same_draws(Sim& s, const char* what, const Pdf<ColumnVector>& a, const Pdf<ColumnVector>& b, int dim, double scale) {
  uint64_t seed = s.seed64(); int m = s.draw(3), n = s.range(1, 6); std::vector<Sample<ColumnVector> > l[2]; for (int k = 0; k < 2; k++) { WordStream w(seed); UseStream us(w); const Pdf<ColumnVector>& d = k ? b : a; Sut sut; if (m == 0) { for (int i = 0; i < n; i++) { Sample<ColumnVector> x(dim); d.SampleFrom(x, SampleMthd::DEFAULT, NULL); l[k].push_back(x); } } else d.SampleFrom(l[k], n, m == 1 ? SampleMthd::DEFAULT : SampleMthd::CHOLESKY, NULL); }
  for (int i = 0; i < n; i++) { ref::V x = rv(l[0][i].ValueGet()), y = rv(l[1][i].ValueGet()); for (int j = 0; j < dim; j++) if (!close((double)x[j], (double)y[j], 1e-9 * scale)) s.fail("stale-sampler", "%s: %s %d is %s, a new density with the same parameters gives %s", what, m ? "list sample" : "sample", i, str(x).c_str(), str(y).c_str()); } s.probe("same_draws"); }
void gauss_edits(Sim& s) {
  int dim = s.range(1, 5); WordStream words = mkwords(s); UseStream us(words); struct O { std::unique_ptr<Gaussian> d; ref::V m, m0; ref::M S, S0; }; std::vector<O> pool; int ops = s.range(1, 20); { O o; o.m = rvec(s, dim, 3); o.S = rspd(s, dim, 0.3, 4, s.draw(2)); o.m0 = o.m; o.S0 = o.S; { Sut sut; if (s.draw(3)) o.d.reset(new Gaussian(cv(o.m), csym(o.S))); else { o.d.reset(s.draw(2) ? new Gaussian(dim) : new Gaussian()); o.d->ExpectedValueSet(cv(o.m)); o.d->CovarianceSet(csym(o.S)); } } pool.push_back(std::move(o)); }
  for (int t = 0; t < ops; t++) { size_t k = s.draw(pool.size()); O& o = pool[k]; const char* what = "?";
    int dim = o.m.size();
    switch (s.draw(7)) { case 0: what = "set mean"; { o.m = vary(s, o.m, o.m0, 3); Sut sut; o.d->ExpectedValueSet(cv(o.m)); } break; case 1: what = "set covariance"; { o.S = varyspd(s, o.S, o.S0, 0.3, 4); Sut sut; o.d->CovarianceSet(csym(o.S)); } break; case 2: { what = "sample"; std::vector<Sample<ColumnVector> > l; Sut sut; Sample<ColumnVector> x(dim); if (s.draw(2)) o.d->SampleFrom(x); else o.d->SampleFrom(l, 2, SampleMthd::DEFAULT, NULL); break; }
      case 3: { what = "copy"; if (pool.size() >= 4) break; O c; { Sut sut; c.d.reset(s.draw(2) ? o.d->Clone() : new Gaussian(*o.d)); } c.m = c.m0 = o.m; c.S = c.S0 = o.S; pool.push_back(std::move(c)); break; } case 4: { what = "assign"; size_t j = s.draw(pool.size()); { Sut sut; *pool[j].d = *o.d; } pool[j].m = o.m; pool[j].S = o.S; if (pool[j].m0.size() != o.m.size()) { pool[j].m0 = o.m; pool[j].S0 = o.S; } break; } case 5: { what = "change dimension"; int nd = s.range(1, 5); o.m = o.m0 = rvec(s, nd, 3); o.S = o.S0 = rspd(s, nd, 0.3, 4, s.draw(2)); Sut sut; o.d->DimensionSet(nd); if (s.draw(2)) { o.d->ExpectedValueSet(cv(o.m)); o.d->CovarianceSet(csym(o.S)); } else { o.d->CovarianceSet(csym(o.S)); o.d->ExpectedValueSet(cv(o.m)); } break; } default: what = "query"; }
    s.ev(what, "obj %zu", k);
    for (auto& q : pool) { int dim = q.m.size(); if ((int)q.d->DimensionGet() != dim) s.fail("dimension", "%s: dimension %u, expected %d", what, q.d->DimensionGet(), dim); if (s.draw(3) == 0) { if (s.draw(2)) { Gaussian fresh(cv(q.m), csym(q.S)); same_draws(s, what, *q.d, fresh, dim, 10); } continue; } ref::V x = rvec(s, dim, 3); double g; { Sut sut; g = q.d->ProbabilityGet(cv(x)); } ref::R w = ref::gausspdf(x, q.m, q.S); s.h(g); if (!close(g, (double)w, 1e-8 * (1e-12 + (double)w) + 1e-280)) s.fail("density", "%s: density %.12g, expected %.12g", what, g, (double)w);
      ref::Belief b; b.m = rv(q.d->ExpectedValueGet()); b.P = rm(q.d->CovarianceGet()); for (int i = 0; i < dim; i++) { if (b.m[i] != q.m[i]) s.fail("mean", "%s: mean %s, expected %s", what, str(b.m).c_str(), str(q.m).c_str()); for (int j = 0; j < dim; j++) if (b.P(i, j) != q.S(i, j)) s.fail("covariance", "%s: covariance %s, expected %s", what, str(b.P).c_str(), str(q.S).c_str()); } } }
}
void cond_edits(Sim& s) { // linear conditional Gaussian and conditional discrete: always answer for the current arguments and parameters
  if (s.draw(2)) {
    int dim = s.range(1, 4), na = s.range(1, 2); std::vector<ref::M> A; std::vector<ref::V> x; for (int i = 0; i < na; i++) { int c = s.range(1, 4); A.push_back(rmat(s, dim, c, 1)); x.push_back(ref::V(c, 0)); } ref::V mu = rvec(s, dim, 1); ref::M S = rspd(s, dim, 0.3, 3, s.draw(2)); WordStream words = mkwords(s); UseStream us(words);
    struct O { std::unique_ptr<LinearAnalyticConditionalGaussian> d; std::vector<ref::M> A; std::vector<ref::V> x; ref::V mu; ref::M S; }; std::vector<O> pool; { Gaussian n(cv(mu), csym(S)); O o; std::vector<Matrix> r; for (auto& m : A) r.push_back(cm(m)); { Sut sut; o.d.reset(na == 1 && s.draw(2) ? new LinearAnalyticConditionalGaussian(r[0], n) : new LinearAnalyticConditionalGaussian(r, n)); } o.A = A; o.x = x; o.mu = mu; o.S = S; pool.push_back(std::move(o)); }
    int ops = s.range(1, 20); for (int t = 0; t < ops; t++) { size_t k = s.draw(pool.size()); O& o = pool[k]; const char* what = "?"; int i = s.draw(na);
      switch (s.draw(7)) { case 0: case 1: { what = "set argument"; o.x[i] = vary(s, o.x[i], ref::V(o.x[i].size(), 0), 2); Sut sut; o.d->ConditionalArgumentSet(i, cv(o.x[i])); break; } case 2: { what = "set all arguments"; std::vector<ColumnVector> v; for (auto& y : o.x) { y = vary(s, y, ref::V(y.size(), 0), 2); v.push_back(cv(y)); } Sut sut; o.d->ConditionalArgumentsSet(v); break; } case 3: { what = "set matrix"; o.A[i] = vary(s, o.A[i], A[i], 1); Sut sut; o.d->MatrixSet(i, cm(o.A[i])); break; } case 4: { what = "set noise mean"; o.mu = vary(s, o.mu, mu, 1); Sut sut; o.d->AdditiveNoiseMuSet(cv(o.mu)); break; } case 5: { what = "set noise covariance"; o.S = varyspd(s, o.S, S, 0.3, 3); Sut sut; o.d->AdditiveNoiseSigmaSet(csym(o.S)); break; } default: { what = "copy"; if (pool.size() >= 3) break; O c; { Sut sut; c.d.reset(o.d->Clone()); } c.A = o.A; c.x = o.x; c.mu = o.mu; c.S = o.S; pool.push_back(std::move(c)); } }
      s.ev(what, "obj %zu arg %d", k, i);
      for (auto& q : pool) { ref::V m = q.mu; for (int a = 0; a < na; a++) m = ref::add(m, ref::mul(q.A[a], q.x[a])); ref::V y = rvec(s, dim, 3); int order = s.draw(3); ref::V g; double p; { Sut sut; if (order == 0) { Sample<ColumnVector> z(dim); q.d->SampleFrom(z); } p = q.d->ProbabilityGet(cv(y)); g = rv(q.d->ExpectedValueGet()); } s.h(p); for (int a = 0; a < dim; a++) if (!close((double)g[a], (double)m[a], 1e-9)) s.fail("mean", "%s: conditional mean %s, expected %s", what, str(g).c_str(), str(m).c_str()); ref::R w = ref::gausspdf(y, m, q.S); if (!close(p, (double)w, 1e-8 * (1e-12 + (double)w) + 1e-280)) s.fail("density", "%s: conditional density %.12g, expected %.12g", what, p, (double)w);
        if (s.draw(3) == 0) { Gaussian nz(cv(q.mu), csym(q.S)); std::vector<Matrix> r; for (auto& m : q.A) r.push_back(cm(m)); LinearAnalyticConditionalGaussian fresh(r, nz); for (int a = 0; a < na; a++) fresh.ConditionalArgumentSet(a, cv(q.x[a])); same_draws(s, what, *q.d, fresh, dim, 20); }
        for (int a = 0; a < na; a++) { ref::M J = rm(q.d->dfGet(a)); for (size_t e = 0; e < J.a.size(); e++) if (J.a[e] != q.A[a].a[e]) s.fail("derivative", "%s: derivative with respect to argument %d is %s", what, a, str(J).c_str()); } } }
  } else {
    int n = s.range(1, 5), na = s.range(1, 3); std::vector<int> dims; for (int i = 0; i < na; i++) dims.push_back(s.range(1, 4)); WordStream words = mkwords(s); UseStream us(words);
    struct O { std::unique_ptr<DiscreteConditionalPdf> d; Table t; std::vector<int> a; }; std::vector<O> pool; { O o; o.t = rtable(s, n, dims, 200); { Sut sut; o.d.reset(mkcond(o.t)); } o.a.assign(na, 0); pool.push_back(std::move(o)); for (int i = 0; i < na; i++) pool[0].d->ConditionalArgumentSet(i, 0); }
    int ops = s.range(1, 20); for (int t = 0; t < ops; t++) { size_t k = s.draw(pool.size()); O& o = pool[k]; const char* what = "?";
      switch (s.draw(4)) { case 0: case 1: { what = "set argument"; int i = s.draw(na); o.a[i] = s.draw(dims[i]); Sut sut; o.d->ConditionalArgumentSet(i, o.a[i]); break; } case 2: { what = "set a row"; std::vector<int> a; for (int d : dims) a.push_back(s.draw(d)); DV r = rdist(s, n, 200); for (auto& v : r) v = (double)v; o.t.rows[o.t.idx(a)] = r; { Sut sut; for (int y = 0; y < n; y++) o.d->ProbabilitySet((double)r[y], y, a); } break; } default: { what = "copy"; if (pool.size() >= 3) break; O c; { Sut sut; c.d.reset(o.d->Clone()); } c.t = o.t; c.a = o.a; pool.push_back(std::move(c)); } }
      s.ev(what, "obj %zu", k);
      for (auto& q : pool) { const DV& r = q.t.row(q.a); for (int y = 0; y < n; y++) { double p; { Sut sut; p = q.d->ProbabilityGet(y); } s.h(p); if (!close(p, (double)r[y], 1e-12)) s.fail("density", "%s: P(%d|args) = %.12g, expected %.12g", what, y, p, (double)r[y]); } Sample<int> x; { Sut sut; q.d->SampleFrom(x, SampleMthd::DEFAULT, NULL); } int v = x.ValueGet(); if (v < 0 || v >= n || !(r[v] > 0)) s.fail("stale-sampler", "%s: sampled state %d", what, v); }
      if (now(s, t, ops)) for (auto& q : pool) { const DV& r = q.t.row(q.a); std::map<Key, double> m; for (int y = 0; y < n; y++) m[Key(1, y)] = (double)r[y]; dist<int>(s, what, *q.d, 1, false, m); } }
  }
}
void uniform_edits(Sim& s) { int dim = s.range(1, 4), ops = s.range(1, 10); WordStream words = mkwords(s); UseStream us(words); ref::V c = rvec(s, dim, 3), w = rvec(s, dim, 2); for (auto& x : w) x = std::fabs((double)x) + 0.25; std::unique_ptr<Uniform> u; { Sut sut; if (s.draw(2)) u.reset(new Uniform(cv(c), cv(w))); else { u.reset(s.draw(2) ? new Uniform(dim) : new Uniform()); u->UniformSet(cv(c), cv(w)); } }
  for (int t = 0; t < ops; t++) { if (s.draw(2)) { c = vary(s, c, ref::V(dim, 0), 3); w = vary(s, w, ref::V(dim, 1), 2); for (auto& x : w) x = std::fabs((double)x) + 0.25; Sut sut; u->UniformSet(cv(c), cv(w)); s.ev("set bounds"); } else { Sut sut; u.reset(u->Clone()); s.ev("replace by clone"); }
    ref::V x = c; bool out = s.draw(2); int j = s.draw(dim); for (int i = 0; i < dim; i++) x[i] += w[i] * 0.49L * (ref::R)s.sym(1); if (out) x[j] = c[j] + w[j] * (s.draw(2) ? 0.51L : -0.51L); ref::R p = out ? 0 : 1; if (!out) for (auto v : w) p /= v; double g; { Sut sut; g = u->ProbabilityGet(cv(x)); } s.h(g); if (!close(g, (double)p, 1e-9 * (1 + (double)p))) s.fail("density", "uniform density %.12g, expected %.12g", g, (double)p);
    if (s.draw(3) == 0) { bool exact = true; for (int i = 0; i < dim; i++) { x[i] = s.draw(2) ? c[i] - w[i] / 2 : c[i] + w[i] / 2; if (s.draw(3) == 0) x[i] = c[i]; double lo = (double)c[i] - (double)w[i] / 2, hi = (double)c[i] + (double)w[i] / 2; if ((ref::R)lo != c[i] - w[i] / 2 || (ref::R)hi != c[i] + w[i] / 2) exact = false; } if (exact) { p = 1; for (auto v : w) p /= v; { Sut sut; g = u->ProbabilityGet(cv(x)); } s.probe("at_bound"); if (!close(g, (double)p, 1e-9 * (1 + (double)p))) s.fail("density", "uniform density at the bounds is %.12g, expected %.12g", g, (double)p); } }
    ref::V gc = rv(u->CenterGet()), gw = rv(u->WidthGet()); for (int i = 0; i < dim; i++) if (!close((double)gc[i], (double)c[i], 1e-12) || !close((double)gw[i], (double)w[i], 1e-12)) s.fail("bounds", "center %s width %s", str(gc).c_str(), str(gw).c_str()); Sample<ColumnVector> y(dim); { Sut sut; u->SampleFrom(y); } ref::V yv = rv(y.ValueGet()); for (int i = 0; i < dim; i++) if (std::fabs((double)(yv[i] - c[i])) > (double)w[i] / 2 + 1e-12) s.fail("stale-sampler", "sample %s outside the bounds", str(yv).c_str());
    if (now(s, t, ops)) { const char* how; std::vector<Key> v = draws<ColumnVector>(s, *u, dim, false, how); for (int i = 0; i < dim; i++) { double f = s.real(0.05, 0.95), th = (double)(c[i] - w[i] / 2 + w[i] * (ref::R)f), k = 0; for (auto& q : v) k += q[i] <= th; bin(s, "uniform", how, "a value below a threshold", v.size(), f, k); } } } }
}
SCENARIO(C09, 2) { switch (s.draw(9)) { case 0: case 1: discrete_edits(s); break; case 2: case 3: mixture_edits(s); break; case 4: if (s.draw(3) == 0) smixture_edits(s); else dmixture_edits(s); break; case 5: if (s.draw(2)) mc_edits<ColumnVector>(s); else mc_edits<unsigned>(s); break; case 6: gauss_edits(s); break; case 7: cond_edits(s); break; default: uniform_edits(s); } }
