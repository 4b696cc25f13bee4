// C16: the particle filter with an extended-Kalman proposal against a per-particle reference.
#include "kmodels.h"
#include "pmodels.h"
#include "world.h"
#include <filter/EKparticlefilter.h>
using namespace W;
namespace {
const double EV = 34;
// transition density that records every pair (new state, state it was conditioned on) it is asked about
struct RecPdf : public NLPdf { std::map<Key, std::set<Key> >* log; RecPdf(const Fun& f, std::map<Key, std::set<Key> >* l) : NLPdf(f), log(l) {} virtual RecPdf* Clone() const { return new RecPdf(*this); }
  virtual Probability ProbabilityGet(const ColumnVector& y) const { sim::NoSut n; (*log)[TT<ColumnVector>::key(y)].insert(TT<ColumnVector>::key(ConditionalArgumentGet(0))); return (double)ref::gausspdf(rv(y), f.f(X(), U()), f.S(X(), U())); } };
ref::V rvk(const Key& k) { ref::V v; for (double x : k) v.push_back(x); return v; }
struct Stat { double n, a, ss, mid, pos; Stat() : n(0), a(0), ss(0), mid(0), pos(0) {} void add(double x) { n++; a += x; ss += x * x; mid += std::fabs(x) < 0.6744897501960817; pos += x > 0; }
  void judge(Sim& s, const char* w) { if (n < 8) return; double z = a / std::sqrt(n), r = ss / n, e = r > 0 ? n / 2 * (r - 1 - std::log(r)) : 1e9; if (!(std::fabs(z) < 8.2)) s.fail("proposal-mean", "%s: mean of %.0f whitened draws is off by %.2f standard errors", w, n, z); if (!(e <= EV)) s.fail("proposal-covariance", "%s: variance of %.0f whitened draws is %.6g instead of 1 (log evidence %.1f)", w, n, r, e); if (binom_evidence(n, 0.5, mid) > EV || binom_evidence(n, 0.5, pos) > EV) s.fail("proposal-shape", "%s: %.0f whitened draws, %.0f central, %.0f positive", w, n, mid, pos); } };
struct PP { Key x; double w; ref::M P; };
ref::M wcov(const Parts& p) { size_t d = p[0].x.size(); ref::V mu(d, 0); ref::R t = 0; for (auto& q : p) t += q.w; for (auto& q : p) for (size_t i = 0; i < d; i++) mu[i] += q.w / t * q.x[i]; ref::M C(d, d); for (auto& q : p) for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) C(i, j) += q.w / t * (q.x[i] - mu[i]) * (q.x[j] - mu[j]); return C; }
// Unbiasedness: many fresh filters take one update and are then resampled at their second; copies are counted by weight and by position.
void ek_bias(Sim& s) {
  int n = s.range(1, 2), N = s.range(1, 20), K = s.range(8, 16); std::map<Key, std::set<Key> > log; SysM sys; sys.f = mkfun(s, n, n, 0, true, 0.5, 1.5, true); sys.pdf.reset(new RecPdf(sys.f, &log)); sys.model.reset(new AnalyticSystemModelGaussianUncertainty(sys.pdf.get()));
  MeasM sens; mkmeas(sens, mkfun(s, n, s.range(1, 2), 0, true, 1, 4, false)); WordStream words(s.seed64()); UseStream us(words); std::vector<double> cnt(N, 0), p(N, 0); std::map<int, double> cw, pw; s.ev("resample-many", "N=%d K=%d", N, K); s.probe("resample_many");
  for (int k = 0; k < K; k++) { Parts p0; for (int i = 0; i < N; i++) { P q; q.x = rkey<ColumnVector>(s, n, 1.5); q.x[0] += i * 1e-8; q.w = s.chance(100) ? 0 : s.chance(200) ? s.real(3, 10) : s.real(0.05, 1); p0.push_back(q); } p0[s.draw(N)].w += 0.3;
    MCPdf<ColumnVector> prior(N, n); prior.ListOfSamplesSet(wsamples<ColumnVector>(p0, n)); ref::V z = sens.f.f(rvk(p0[s.draw(N)].x), ref::V()); for (auto& v : z) v = (ref::R)(double)v; ColumnVector zz = cv(z); bool ok; std::unique_ptr<EKParticleFilter> f; { Sut sut; f.reset(new EKParticleFilter(&prior, 1, 0)); ok = f->Update(sys.model.get(), sens.model.get(), zz); } if (!ok) s.fail("update-refused", "update refused"); Parts before = parts<ColumnVector>(*(MCPdf<ColumnVector>*)f->PostGet()); log.clear(); { Sut sut; ok = f->Update(sys.model.get(), sens.model.get(), zz); } if (!ok) s.fail("update-refused", "update refused");
    std::map<Key, int> at; for (int i = 0; i < N; i++) at[before[i].x] = i; if ((int)at.size() < N) { s.probe("untraceable_stop"); return; } int seen = 0; for (auto& kv : log) { if (kv.second.size() != 1) { s.probe("untraceable_stop"); return; } auto a = at.find(*kv.second.begin()); if (a == at.end()) s.fail("not-a-particle", "a particle descends from %s, which was not a particle", str(*kv.second.begin()).c_str()); cnt[a->second]++; int b = before[a->second].w > 0 ? (int)std::floor(2 * std::log2(before[a->second].w * N)) : -99; cw[std::max(b, -12)]++; seen++; } if (seen != N) { s.probe("untraceable_stop"); return; }
    for (int i = 0; i < N; i++) { p[i] += before[i].w; int b = before[i].w > 0 ? (int)std::floor(2 * std::log2(before[i].w * N)) : -99; pw[std::max(b, -12)] += before[i].w; } }
  // a sum of independent unequal Bernoulli trials is at least as concentrated as the binomial with their average
  for (int i = 0; i < N; i++) { s.h(cnt[i]); double e = binom_evidence((double)N * K, std::min(1.0, p[i] / K), cnt[i]); if (p[i] / K > 1 - 1e-9) e = 0; if (e > EV) s.fail("biased-resampling", "list position %d of total weight %.6g over %d filters of %d particles was copied %.0f times (log-evidence %.1f)", i, p[i], K, N, cnt[i], e); }
  for (auto& kv : pw) { double e = binom_evidence((double)N * K, std::min(1.0, kv.second / K), cw[kv.first]); if (kv.second / K > 1 - 1e-9) e = 0; if (e > EV) s.fail("biased-resampling", "particles of weight class %d, %.6g of the weight in total over %d filters of %d particles, were copied %.0f times (log-evidence %.1f)", kv.first, kv.second, K, N, cw[kv.first], e); }
}
}
SCENARIO(C16, 2) {
  if (s.chance(150)) { ek_bias(s); return; }
  bool big = s.chance(120), lin = s.draw(3) == 0; int n = s.range(1, 3), nu = s.draw(2) ? s.range(1, 3) : 0, nsens = s.range(1, 2), nsys = 1 + s.draw(2), N = big ? s.range(60, 160) : s.range(1, 12);
  std::map<Key, std::set<Key> > log; std::vector<SysM> sys(nsys); for (auto& m : sys) { m.f = mkfun(s, n, n, nu, lin, 0.05, 1, true); m.pdf.reset(new RecPdf(m.f, &log)); m.model.reset(new AnalyticSystemModelGaussianUncertainty(m.pdf.get())); }
  std::vector<MeasM> sens(nsens); for (auto& m : sens) mkmeas(m, mkfun(s, n, s.range(1, 3), s.chance(300) ? s.range(1, 2) : 0, s.draw(2), 0.2, 2, false));
  int period = 0; double thr = 0; if (s.draw(2)) period = s.range(1, 4); else thr = s.chance(300) ? 0.5 : s.real(0.2, 1.0) * N;
  Parts p0; for (int i = 0; i < N; i++) { P q; q.x = rkey<ColumnVector>(s, n, 3); q.x[0] += i * 1e-8; /* distinct */ q.w = s.chance(60) ? 0 : s.real(0.05, 1); p0.push_back(q); } p0[0].w = 0.5; p0 = normalised(p0);
  WordStream words(s.seed64()); UseStream us(words); std::unique_ptr<MCPdf<ColumnVector> > prior; std::unique_ptr<EKParticleFilter> flt; std::vector<PP> ref_;
  auto build = [&](const Parts& p, bool reset) { std::unique_ptr<MCPdf<ColumnVector> > old = std::move(prior); prior.reset(new MCPdf<ColumnVector>(N, n)); prior->ListOfSamplesSet(wsamples<ColumnVector>(p, n)); { Sut sut; if (reset) flt->Reset(prior.get()); else flt.reset(new EKParticleFilter(prior.get(), period, thr)); } ref::M C = wcov(p); ref_.clear(); for (auto& q : normalised(p)) { PP r = {q.x, q.w, C}; ref_.push_back(r); } };
  build(p0, false); auto cur = [&]() { return parts<ColumnVector>(*(MCPdf<ColumnVector>*)flt->PostGet()); }; cmp_parts(s, "initial belief", "initial", cur(), p0);
  Prng noise(s.seed64()); Link link(s); ref::V truth = rvk(p0[0].x); int ticks = big ? s.range(1, 4) : s.range(1, 14); struct Z { int k; ref::V z, sp, u; int si; }; std::vector<Z> zs; unsigned pout = s.config >= 1 && s.draw(2) ? 80 : 0, pcrash = s.config >= 1 && s.draw(2) ? 60 : 0;
  for (int t = 0; t < ticks; t++) { Z z; z.si = s.draw(nsys); z.u = rvec(s, nu, 1); z.k = s.draw(nsens); truth = ref::add(sys[z.si].f.f(truth, z.u), gaussvec(noise, sys[z.si].f.S(truth, z.u))); const Fun& f = sens[z.k].f; z.sp = rvec(s, f.nu, 1); z.z = ref::add(f.f(truth, z.sp), gaussvec(noise, f.S(truth, z.sp))); if (pout && s.chance(pout)) { s.fault("outlier"); double far = s.draw(4) ? 4 : s.draw(2) ? 300 : 1e5; for (auto& v : z.z) v += far; } for (auto& v : z.z) v = (ref::R)(double)v; zs.push_back(z); link.send(t, 0, 0, t); }
  Stat st; std::vector<Stat> cross(n * n * 2); int updates = 0; Parts stored = p0; Msg m;
  while (link.next(m)) { const Z& z = zs[m.ref]; const Fun &f = sys[z.si].f, &g = sens[z.k].f;
    if (pcrash && s.chance(pcrash)) { s.fault("crash_restart"); s.ev("crash"); build(stored, s.draw(2)); updates = 0; cmp_parts(s, "restart", "restart", cur(), normalised(stored)); }
    log.clear(); Parts before = cur(); bool due = period && updates > 0 && updates % period == 0; ColumnVector u = cv(z.u), zz = cv(z.z), sp = cv(z.sp); SystemModel<ColumnVector>* S = sys[z.si].model.get(); MeasurementModel<ColumnVector, ColumnVector>* M = sens[z.k].model.get(); bool ok;
    { Sut sut; ok = nu && g.nu ? flt->Update(S, u, M, zz, sp) : nu ? flt->Update(S, u, M, zz) : g.nu ? flt->Update(S, M, zz, sp) : flt->Update(S, M, zz); } s.ev("update", "t=%.2f sensor=%d", m.at, z.k); updates++;
    Parts after = cur(); hparts(s, after);
    // previous particles by value (copies of one particle share everything)
    std::map<Key, const PP*> old; for (auto& r : ref_) { auto i = old.find(r.x); if (i != old.end() && i->second && (i->second->P.a != r.P.a || i->second->w != r.w)) i->second = 0; else if (i == old.end()) old[r.x] = &r; }
    // every evaluated new state with its parent gives the new particle set before any resampling after the weighting
    std::vector<PP> nw; long double tot = 0; bool skip = false, hopeless = true; std::vector<long double> wl;
    std::map<Key, std::pair<ref::V, ref::M> > prop; 
    for (auto& kv : log) for (auto& par : kv.second) { auto i = old.find(par); if (i == old.end()) s.fail("not-a-particle", "a new particle %s is weighted against a transition from %s, which was not a particle", str(kv.first).c_str(), str(par).c_str()); if (!i->second) { skip = true; continue; } const PP& o = *i->second; if (due && o.w <= 0) s.fail("resampled-from-nowhere", "after the due resampling a particle descends from %s, which had no weight", str(par).c_str());
      if (kv.second.size() > 1) { skip = true; continue; }
      ref::V x = rvk(o.x), y = rvk(kv.first); ref::Belief b; b.m = x; b.P = o.P; b = ref::kf_predict(b, f.f(x, z.u), f.F(x, z.u), f.S(x, z.u)); b = ref::kf_correct(b, z.z, g.f(b.m, z.sp), g.F(b.m, z.sp), g.S(b.m, z.sp));
      long double t = ref::gausspdf(z.z, g.f(y, z.sp), g.S(y, z.sp)) * ref::gausspdf(y, f.f(x, z.u), f.S(x, z.u)) / ref::gausspdf(y, b.m, b.P); long double w = (due ? 1.0L / N : (long double)o.w) * t; if (t > 1e-345L || !(ref::gausspdf(y, b.m, b.P) > 1e-200L)) hopeless = false; PP q; q.x = kv.first; q.P = b.P; for (auto& v : q.P.a) v = (ref::R)v; q.w = 0; nw.push_back(q); wl.push_back(w); tot += w;
      // whitened draw
      ref::M L(n, n); for (int j = 0; j < n; j++) { ref::R d = b.P(j, j); for (int k = 0; k < j; k++) d -= L(j, k) * L(j, k); L(j, j) = std::sqrt((double)d); for (int r = j + 1; r < n; r++) { ref::R v = b.P(r, j); for (int k = 0; k < j; k++) v -= L(r, k) * L(j, k); L(r, j) = v / L(j, j); } }
      std::vector<double> e(n); for (int r = 0; r < n; r++) { ref::R v = y[r] - b.m[r]; for (int k = 0; k < r; k++) v -= L(r, k) * e[k]; e[r] = (double)(v / L(r, r)); st.add(e[r]); if (!(std::fabs(e[r]) < 10)) s.fail("proposal", "new particle %s lies %.1f standard deviations from the mean %s of its proposal", str(kv.first).c_str(), e[r], str(b.m).c_str()); for (int k = 0; k < r; k++) for (int sg = 0; sg < 2; sg++) cross[(r * n + k) * 2 + sg].add((e[r] + (sg ? 1 : -1) * e[k]) / std::sqrt(2.0)); } }
    if (!ok) { if (tot > 1e-250L && !skip) s.fail("update-refused", "update returned false although the measurement is possible"); s.probe("impossible_refused"); s.ev("refused"); valid_parts(s, "after a refused update", after, N); if (!skip && (int)nw.size() == N) { Parts want; for (auto& q : nw) { P r; r.x = q.x; const std::set<Key>& par = log[q.x]; r.w = due ? 1.0 / N : old[*par.begin()]->w; want.push_back(r); } cmp_parts(s, "after a refused update", "refused", after, want, 1e-9); } return; }
    if (!skip && (int)nw.size() == N && hopeless) s.fail("impossible-accepted", "update returned true although no particle can have produced the measurement");
    if (skip || (int)nw.size() < N) { // a density too small to be represented hides the particle's parent from us
      s.probe("untraceable_stop"); if ((int)after.size() != N) s.fail("particle-count", "%zu particles, expected %d", after.size(), N); if (!skip) for (auto& q : after) if (!log.count(q.x) && q.w > 0) s.fail("weight", "particle %s has weight %.9g but its transition density was never evaluated", str(q.x).c_str(), q.w); return; }
    if (tot < 1e-250L) { s.probe("tiny_likelihood_stop"); return; }
    Parts want; for (size_t i = 0; i < nw.size(); i++) { nw[i].w = (double)(wl[i] / tot); P q; q.x = nw[i].x; q.w = nw[i].w; want.push_back(q); }
    std::map<Key, const PP*> np; for (auto& r : nw) np[r.x] = &r; double es = ess(want); bool dyn = thr > 0 && es < thr, amb = thr > 0 && std::fabs(es - thr) < 1e-6 * (1 + thr);
    valid_parts(s, "update", after, N);
    bool eq = true; { Parts a = after, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); for (size_t i = 0; i < a.size(); i++) if (a[i].x != b[i].x) eq = false; }
    if (amb) { s.probe("ambiguous_stop"); return; }
    std::vector<PP> nr;
    if (dyn) { s.probe("dynamic_resample"); s.ev("resampled"); for (auto& q : after) { auto i = np.find(q.x); if (i == np.end()) s.fail("resampled-value", "resampled particle %s is not one of the particles", str(q.x).c_str()); if (!(i->second->w > 0)) s.fail("resampled-from-nowhere", "resampled particle %s had no weight", str(q.x).c_str()); if (!close(q.w, 1.0 / N, 1e-12)) s.fail("resampled-weight", "after resampling particle %s has weight %.12g instead of 1/%d", str(q.x).c_str(), q.w, N); PP r = *i->second; r.w = 1.0 / N; nr.push_back(r); } std::map<Key, int> c; for (auto& q : after) c[q.x]++; for (auto& r : nw) if (binom_evidence(N, std::min(1.0, r.w), c[r.x]) > EV) s.fail("resampled-frequency", "particle %s of weight %.9g was copied %d times in %d", str(r.x).c_str(), r.w, c[r.x], N); }
    else { if (!eq) s.fail("particle-value", "the particles are not the ones drawn and weighted in this update%s", thr > 0 ? " although resampling was not due" : ""); for (auto& q : after) { const PP* r = np[q.x]; if (!close(q.w, r->w, 1e-9 + 1e-7 * r->w)) s.fail("weight", "particle %s has weight %.12g, likelihood times transition over proposal gives %.12g", str(q.x).c_str(), q.w, r->w); PP k = *r; k.w = q.w; nr.push_back(k); } if (due) { s.probe("static_resample"); s.ev("static"); std::map<Key, int> c; std::map<Key, double> pw; for (auto& q : before) pw[q.x] += q.w; for (auto& kv : log) c[*kv.second.begin()]++; for (auto& r : pw) if (binom_evidence(N, std::min(1.0, r.second), c[r.first]) > EV) s.fail("resampled-frequency", "particle %s of weight %.9g was copied %d times in %d", str(r.first).c_str(), r.second, c[r.first], N); } }
    ref_ = nr; if (pcrash && s.chance(150)) { stored = after; s.ev("checkpoint"); } }
  st.judge(s, "draws from the EKF proposals"); for (auto& c : cross) c.judge(s, "correlation of draws from the EKF proposals"); if (st.n >= 100) s.probe("draw_statistics");
}
