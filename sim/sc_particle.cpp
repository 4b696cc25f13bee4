#include "pmodels.h"
#include "world.h"
#include <filter/bootstrapfilter.h>
#include <filter/particlefilter.h>
using namespace W;
namespace {
template <class T> struct Moments { static void check(Sim&, const char*, const MCPdf<T>&, const Parts&) {} };
template <> struct Moments<ColumnVector> { static void check(Sim& s, const char* what, const MCPdf<ColumnVector>& m, const Parts& p) {
  size_t d = p[0].x.size(); ref::V mu(d, 0); for (auto& x : p) for (size_t i = 0; i < d; i++) mu[i] += (ref::R)x.w * x.x[i];
  ref::M C(d, d); for (auto& x : p) for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) C(i, j) += (ref::R)x.w * (x.x[i] - mu[i]) * (x.x[j] - mu[j]);
  ref::V gm; ref::M gC; { Sut sut; bool first = s.draw(2); if (first) gm = rv(m.ExpectedValueGet()); gC = rm(m.CovarianceGet()); if (!first) gm = rv(m.ExpectedValueGet()); }
  double sc = 1 + (double)ref::scale(mu); for (auto& x : p) for (double v : x.x) sc = std::max(sc, std::fabs(v));
  for (size_t i = 0; i < d; i++) { if (!close((double)gm[i], (double)mu[i], 1e-9 * sc)) s.fail("mean", "%s: reported mean %s, weighted particles give %s", what, str(gm).c_str(), str(mu).c_str());
    for (size_t j = 0; j < d; j++) if (!close((double)gC(i, j), (double)C(i, j), 1e-9 * sc * sc)) s.fail("covariance", "%s: reported covariance %s, weighted particles give %s", what, str(gC).c_str(), str(C).c_str()); } } };
template <> struct Moments<unsigned> { static void check(Sim& s, const char* what, const MCPdf<unsigned>& m, const Parts& p) {
  long double mu = 0; for (auto& x : p) mu += (long double)x.w * x.x[0]; unsigned g; { Sut sut; g = m.ExpectedValueGet(); }
  if (std::fabs((double)(mu - g)) > 0.5 + 1e-6) s.fail("mean", "%s: reported mean %u, weighted particles give %.9g", what, g, (double)mu);
  long double c = 0; for (auto& x : p) c += (long double)x.w * (x.x[0] - mu) * (x.x[0] - mu); double gc; { Sut sut; gc = m.CovarianceGet()(1, 1); } // the reported mean is rounded: up to 1/4 more
  if (gc < (double)c * (1 - 1e-9) - 1e-9 || gc > (double)c * (1 + 1e-9) + 0.25 + 1e-6) s.fail("covariance", "%s: reported variance %.9g, weighted particles give %.9g", what, gc, (double)c); } };

enum { SCHED = 1, MOVES = 2 };
template <class SV, class MV> void pf_run(Sim& s, int focus) {
  int dim = std::is_same<SV, ColumnVector>::value ? s.range(1, 3) : 1, N = s.chance(60) ? 1 : s.range(2, s.chance(100) ? 120 : 25);
  bool generic = s.chance(300), in = s.draw(2), userpost = !generic && s.chance(150);
  const bool C = TT<SV>::cont;
  Env env(s.seed64()); int nsys = 1 + s.draw(2), nsens = s.range(1, 3);
  std::vector<std::unique_ptr<TransPdf<SV> > > sp; std::vector<std::unique_ptr<SystemModel<SV> > > sm;
  for (int i = 0; i < nsys; i++) { sp.emplace_back(new TransPdf<SV>(mktrans(s, C, dim), in, &env)); sp[i]->id = i + 1; sm.emplace_back(new SystemModel<SV>(sp[i].get())); }
  std::unique_ptr<TransPdf<SV> > props[2]; for (auto& q : props) { q.reset(new TransPdf<SV>(mktrans(s, C, dim), in, &env)); if (!C) q->t.K = sp[0]->t.K; q->id = &q - props + 101; q->t.box = generic && s.chance(200); if (q->t.box) s.probe("unit_density_proposal"); } ConditionalPdf<SV, SV>* pp = props[0].get(); const Trans* prop = &props[0]->t; int pid = 101;
  std::vector<std::unique_ptr<LikPdf<MV, SV> > > lp; std::vector<std::unique_ptr<MeasurementModel<MV, SV> > > mm;
  for (int i = 0; i < nsens; i++) { Lik l = mklik(s, C); lp.emplace_back(new LikPdf<MV, SV>(l, s.chance(350), &env)); mm.emplace_back(new MeasurementModel<MV, SV>(lp[i].get())); }
  int period = 0; double thr = 0; if (s.draw(2)) period = s.range(1, 4); else thr = s.chance(200) ? 0.5 : s.real(0.3, 1.05) * N;
  Parts prior; for (int i = 0; i < N; i++) { P p; p.x = i && s.chance(60) ? prior[s.draw(i)].x : rkey<SV>(s, dim, 4); p.w = s.chance(60) ? 0.0 : (s.chance(50) ? 1e-12 : s.real(0.05, 1)); prior.push_back(p); }
  { double t = 0; for (auto& p : prior) t += p.w; if (t <= 0) prior[0].w = 1; }
  WordStream words(s.seed64()); if (s.config >= 1 && s.chance(300)) { words.mode = 1; words.inj = 100 + s.draw(500); }
  UseStream us(words);
  std::unique_ptr<MCPdf<SV> > pr, po; std::unique_ptr<ParticleFilter<SV, MV> > flt;
  auto build = [&](const Parts& ps) {
    bool again = flt && s.draw(3) == 0; if (!again) flt.reset(); std::unique_ptr<MCPdf<SV> > np(new MCPdf<SV>(N, dim)); { Sut sut; np->ListOfSamplesSet(wsamples<SV>(ps, dim)); if (again) { flt->Reset(np.get()); } } pr = std::move(np); if (again) { s.probe("reset"); return; } Sut sut;
    if (generic) flt.reset(new ParticleFilter<SV, MV>(pr.get(), pp, period, thr)); else if (userpost) { po.reset(new MCPdf<SV>(N, dim)); flt.reset(new BootstrapFilter<SV, MV>(pr.get(), po.get(), period, thr)); } else flt.reset(new BootstrapFilter<SV, MV>(pr.get(), period, thr)); };
  build(prior);
  auto cur = [&]() { return parts<SV>(*(MCPdf<SV>*)flt->PostGet()); };
  cmp_parts(s, "initial belief", "initial", cur(), normalised(prior));
  Link link(s); int ticks = s.chance(40) ? s.range(30, 80) : s.range(1, 16);
  unsigned pcrash = s.config >= 1 && s.draw(2) ? 40 : 0, pq = s.draw(2) ? 300 : 0, pout = s.config >= 1 && s.draw(2) ? 80 : 0;
  enum { PREDICT, MEAS, BOTH }; struct Z { double z; Key sp; int k; }; std::vector<Z> zs; std::vector<Key> us_;
  for (int t = 0; t < ticks; t++) {
    us_.push_back(in ? rkey<SV>(s, dim, 1) : Key()); int si = s.draw(nsys); bool merged = false;
    for (int k = 0; k < nsens; k++) if (s.chance(600)) { Z z; z.k = k; z.z = C || !std::is_same<MV, unsigned>::value ? s.sym(4) : (double)s.draw(12); if (pout && s.chance(pout)) { z.z += 6; s.fault("outlier"); } z.sp = lp[k]->sp ? rkey<SV>(s, dim, 1) : Key(); zs.push_back(z);
      if (!merged && s.chance(generic ? 900 : 350)) { merged = true; link.send(t, BOTH, t * 4 + si, zs.size() - 1); } else link.send(t + 0.1 * (k + 1), MEAS, k, zs.size() - 1); }
    if (!merged) link.send(t, PREDICT, t * 4 + si, 0);
  }
  int preds = 0, sincebuild = 0; (void)sincebuild; Parts stored = prior; bool hasstored = false; Msg m;
  unsigned ptune = s.draw(3) == 0 ? 150 : 0; std::unique_ptr<BootstrapFilter<SV, MV> > other; bool along = s.config >= 1 && s.draw(4) == 0; int oN = s.range(1, 6);
  auto retrans = [&](Trans& t) { Trans n = mktrans(s, C, dim); n.K = t.K; n.box = t.box; switch (s.draw(4)) { case 0: t = n; break; case 1: t.b = n.b; break; case 2: t.sd = n.sd; break; default: t.g = n.g; t.a = n.a; } };
  while (link.next(m)) {
    if (ptune && s.chance(ptune)) { s.fault("model_retuned"); int q = s.draw(3); s.ev("retune", "%d", q); if (q == 0) retrans(sp[s.draw(nsys)]->t); else if (q == 1) { Lik n = mklik(s, C); Lik& l = lp[s.draw(nsens)]->l; if (s.draw(2)) l = n; else l.h = n.h; } else { int j = s.draw(3); if (generic && j == 2 && s.draw(2)) { pp = sp[0].get(); prop = &sp[0]->t; pid = 1; Sut sut; flt->ProposalSet(pp); s.probe("proposal_is_system"); } else if (generic && j) { int k = s.draw(2); pp = props[k].get(); prop = &props[k]->t; pid = 101 + k; s.probe("proposal_swapped"); Sut sut; flt->ProposalSet(pp); if (flt->ProposalGet() != pp) s.fail("proposal", "ProposalGet does not return the proposal set"); } else retrans(props[s.draw(2)]->t); } }
    if (along && s.chance(300)) { s.fault("model_shared"); s.ev("other-filter"); if (!other) { Parts op; for (int i = 0; i < oN; i++) { P p; p.x = rkey<SV>(s, dim, 4); p.w = s.real(0.1, 1); op.push_back(p); } MCPdf<SV> q(oN, dim); q.ListOfSamplesSet(wsamples<SV>(op, dim)); Sut sut; other.reset(new BootstrapFilter<SV, MV>(&q, 1, 0)); } SV U = TT<SV>::mk(rkey<SV>(s, dim, 1)); int k = s.draw(nsens); MV Zv = TT<MV>::mk(Key(1, TT<MV>::cont ? s.sym(3) : (double)s.draw(9))); Sut sut; if (s.draw(2)) { if (in) other->Update(sm[0].get(), U); else other->Update(sm[0].get()); } else if (lp[k]->sp) other->Update(mm[k].get(), Zv, U); else other->Update(mm[k].get(), Zv); }
    if (pcrash && s.chance(pcrash) && hasstored) { s.fault("crash_restart"); s.ev("crash"); build(stored); preds = 0; cmp_parts(s, "restart", "restart", cur(), normalised(stored)); }
    Parts before = cur(); bool pr_ = m.kind != MEAS, me = m.kind != PREDICT; int si = m.id % 4; const Z* z = me ? &zs[m.ref] : 0; const Key* u = pr_ ? &us_[m.id / 4] : 0;
    SystemModel<SV>* S = pr_ ? sm[si].get() : 0; MeasurementModel<MV, SV>* Mm = me ? mm[z->k].get() : 0;
    SV U = TT<SV>::mk(u && in ? *u : Key(dim, 0.0)); SV SPv = TT<SV>::mk(z && z->sp.size() ? z->sp : Key(dim, 0.0)); MV Zv = TT<MV>::mk(Key(1, z ? z->z : 0.0));
    env.log.clear(); bool ok; const char* what = pr_ ? (me ? "combined update" : "prediction") : "measurement update"; uint64_t w0 = words.consumed;
    bool sprm = z && z->sp.size();
    { Sut sut;
      if (pr_ && me) { if (in && sprm) ok = flt->Update(S, U, Mm, Zv, SPv); else if (in) ok = s.draw(2) ? flt->Update(S, U, Mm, Zv) : flt->Update(S, U, Mm, Zv, SPv); else if (sprm) ok = flt->Update(S, Mm, Zv, SPv); else ok = flt->Update(S, Mm, Zv); }
      else if (pr_) { ok = in ? flt->Update(S, U) : flt->Update(S); }
      else ok = sprm ? flt->Update(Mm, Zv, SPv) : flt->Update(Mm, Zv); }
    s.ev(what, "t=%.2f model=%d z=%.6g", m.at, m.id, z ? z->z : 0.0);
    Parts after = cur(); hparts(s, after);
    // ---- expected behaviour
    bool due = pr_ && period && preds > 0 && preds % period == 0; Parts mid = before; std::map<Key, Key> parent; bool resampledNow = false;
    if (pr_) {
      preds++;
      // every particle after the prediction must be one recorded draw, conditioned on a distinct particle
      for (auto& d : env.log) { if (d.by != (generic ? pid : sp[si]->id)) s.fail("wrong-density", "%s: a particle was drawn from density %d instead of %d", what, d.by, generic ? pid : sp[si]->id); if (d.u != (in ? *u : Key())) s.fail("input", "%s: proposal was given input %s instead of %s", what, str(d.u).c_str(), str(in ? *u : Key()).c_str()); parent[d.child] = d.parent; }
      if (due) { s.probe("static_resample"); std::set<Key> pos; for (auto& p : before) if (p.w > 0) pos.insert(p.x); for (auto& d : env.log) if (!pos.count(d.parent)) s.fail("resampled-from-nowhere", "%s: after the due resampling a particle descends from %s, which had no weight", what, str(d.parent).c_str()); }
      if (env.log.size() != (size_t)N) s.fail("draw-count", "%s: %zu draws from the proposal for %d particles", what, env.log.size(), N);
      mid.clear();
      if (due) for (auto& d : env.log) { P p; p.x = d.child; p.w = 1.0 / N; mid.push_back(p); }
    }
    if (!ok) {
      // only legitimate when the measurement is impossible (that contract is property C10)
      long double t = 0; if (me) for (auto& p : (pr_ ? after : before)) t += (long double)p.w * lp[z->k]->l.p(z->z, p.x, z->sp);
      if (t > 0 || !me) s.fail("update-refused", "%s returned false although the measurement is possible", what); s.probe("impossible_stop"); return;
    }
    if (pr_ && !due && !me) { // weights carried: parents with their weights must be the previous particles
      Parts back; for (auto& p : after) { auto it = parent.find(p.x); if (it == parent.end()) s.fail("unknown-particle", "%s: particle %s was never drawn from the proposal", what, str(p.x).c_str()); P q; q.x = it->second; q.w = p.w; back.push_back(q); }
      cmp_parts(s, what, "carried", back, before);
      Parts chk; for (auto& d : env.log) { P p; p.x = d.child; p.w = 0; chk.push_back(p); } Parts aft = after; for (auto& p : aft) p.w = 0; cmp_parts(s, what, "moved", aft, chk);
    } else if (pr_ && due && !me) cmp_parts(s, what, "resampled", after, mid);
    if (me) {
      Parts want;
      if (!pr_ || due) { for (auto& p : (pr_ ? mid : before)) { P q = p; long double f = lp[z->k]->l.p(z->z, p.x, z->sp); if (pr_ && generic) f *= (long double)sp[si]->t.dens(p.x, parent[p.x], *u) / prop->dens(p.x, parent[p.x], *u); q.w = (double)(p.w * f); want.push_back(q); } }
      else { // not due: carry weights over recorded parents. Duplicate parent values with different weights are matched by weight order
        std::map<Key, std::vector<double> > pool; for (auto& p : before) pool[p.x].push_back(p.w);
        bool ambiguous = false; for (auto& kv : pool) { for (double w : kv.second) if (w != kv.second[0]) ambiguous = true; }
        if (ambiguous) { s.probe("ambiguous_parent_skip"); want.clear(); }
        else for (auto& d : env.log) { auto& v = pool[d.parent]; if (v.empty()) s.fail("carried-value", "%s: a particle was moved from %s more often than that value occurred", what, str(d.parent).c_str()); P q; q.x = d.child; long double f = lp[z->k]->l.p(z->z, d.child, z->sp); if (generic) f *= (long double)sp[si]->t.dens(d.child, d.parent, *u) / prop->dens(d.child, d.parent, *u); q.w = (double)(v.back() * f); v.pop_back(); want.push_back(q); }
      }
      if (!want.empty()) {
        long double tot = 0; for (auto& p : want) tot += p.w; if (!(tot > 1e-250)) { s.probe("underflow_stop"); return; }
        want = normalised(want); double e = ess(want);
        if (period == 0 && std::fabs(e - thr) < 1e-9 * (thr + N)) s.probe("ess_borderline");
        else if (period == 0 && e < thr) {
          s.probe("dynamic_resample"); resampledNow = true; std::set<Key> pos; for (auto& p : want) if (p.w > 0) pos.insert(p.x);
          for (auto& p : after) { if (!pos.count(p.x)) s.fail("resampled-from-nowhere", "%s: resampled particle %s had no weight", what, str(p.x).c_str()); if (!close(p.w, 1.0 / N, 1e-12)) s.fail("resampled-weight", "%s: weight %.12g after resampling, expected 1/%d (ess %.6g threshold %.6g)", what, p.w, N, e, thr); }
        } else cmp_parts(s, what, "reweighted", after, want, 1e-10);
      }
      if (!resampledNow && !due && words.consumed != w0 && want.size()) { if (!(period == 0 && std::fabs(ess(want) - thr) < 1e-9 * (thr + N))) s.fail("unexpected-randomness", "%s consumed random words although no resampling was due", what); }
    }
    valid_parts(s, what, after, N);
    if (s.chance(250)) Moments<SV>::check(s, what, *(MCPdf<SV>*)flt->PostGet(), after);
    if (pq && s.chance(pq)) { s.ev("query"); Sut sut; MCPdf<SV>* post = (MCPdf<SV>*)flt->PostGet(); int q = s.draw(4);
      if (q == 0) { std::vector<Sample<SV> > l; post->SampleFrom(l, s.range(0, 6), s.draw(2) ? SampleMthd::DEFAULT : SampleMthd::RIPLEY, NULL); }
      else if (q == 1) { Sample<SV> x(dim); post->SampleFrom(x); } else if (q == 2) { std::unique_ptr<MCPdf<SV> > c(post->Clone()); cmp_parts(s, "clone", "clone", parts<SV>(*c), after, 0); } else { for (int i = 0; i < N; i++) (void)post->SampleGet(i).WeightGet(); }
      cmp_parts(s, "after query", "query", cur(), after, 0); }
    if (pcrash && s.chance(200)) { stored = after; hasstored = true; s.ev("checkpoint"); }
  }
}
void pf_any(Sim& s, int f) { switch (s.draw(5)) { case 0: case 1: pf_run<ColumnVector, ColumnVector>(s, f); break; case 2: pf_run<ColumnVector, double>(s, f); break; case 3: pf_run<unsigned, unsigned>(s, f); break; default: pf_run<double, double>(s, f); } }

// Unbiasedness: the same weighted particle set is resampled by many fresh filters; copies are counted.
template <class SV> void pf_bias(Sim& s) {
  int N = s.range(1, 30), K = s.range(20, 60), dim = 1; Env env(s.seed64()); Trans t = mktrans(s, TT<SV>::cont, dim); Lik l = mklik(s, TT<SV>::cont); l.bounded = false; l.floor = 0.01;
  TransPdf<SV> tp(t, false, &env); SystemModel<SV> S(&tp); LikPdf<SV, SV> lp(l, false); MeasurementModel<SV, SV> M(&lp);
  Parts ps; for (int i = 0; i < N; i++) { P p; p.x = Key(1, (double)(16 * i + s.draw(9))); p.w = s.chance(150) ? 0 : (s.chance(250) ? s.real(5, 20) : s.real(0.01, 1)); ps.push_back(p); }
  { double q = 0; for (auto& p : ps) q += p.w; if (q <= 0) ps[s.draw(N)].w = 1; }
  bool dyn = s.draw(2); double zv = TT<SV>::cont ? s.sym(8) : (double)s.draw(9); Parts target = normalised(ps); std::map<Key, double> cnt, w; WordStream words(s.seed64()); UseStream us(words);
  if (dyn) { for (auto& p : target) p.w *= lp.l.p(zv, p.x, Key()); target = normalised(target); }
  for (auto& p : target) w[p.x] += p.w;
  s.ev("resample-many", "N=%d K=%d dynamic=%d", N, K, dyn);
  // one filter resampling at its second prediction; the first prediction is made an identity through a frozen model
  for (int k = 0; k < K; k++) {
    MCPdf<SV> pr(N, dim); pr.ListOfSamplesSet(wsamples<SV>(ps, dim)); Sut sut;
    if (dyn) { BootstrapFilter<SV, SV> f(&pr, 0, N + 1.0); if (!f.Update(&M, TT<SV>::mk(Key(1, zv)))) s.fail("update-refused", "measurement refused"); for (auto& p : parts<SV>(*(MCPdf<SV>*)f.PostGet())) cnt[p.x]++; }
    else { BootstrapFilter<SV, SV> f(&pr, 1, 0); f.Update(&S); // moves the particles: remember who they were
      std::map<Key, Key> origin; for (auto& d : env.log) origin[d.child] = d.parent; env.log.clear(); f.Update(&S); for (auto& d : env.log) cnt[origin[d.parent]]++; env.log.clear(); }
  }
  double n = (double)N * K, tot = 0; for (auto& kv : cnt) { tot += kv.second; s.h(kv.second); if (!w.count(kv.first)) s.fail("resampled-from-nowhere", "resampling produced %s, not a particle", str(kv.first).c_str()); }
  if (tot != n) s.fail("particle-count", "resampling produced %.0f particles instead of %.0f", tot, n);
  for (auto& kv : w) { double c = cnt.count(kv.first) ? cnt[kv.first] : 0; double ev = binom_evidence(n, std::min(1.0, kv.second), c); if (kv.second > 1 - 1e-12 && c == n) ev = 0; if (ev > 34) s.fail("biased-resampling", "particle with weight %.6g was copied %.0f times in %.0f draws (log-evidence %.1f)", kv.second, c, n, ev); }
}
}
SCENARIO(C04, 2) { pf_any(s, MOVES); }
SCENARIO(C05, 2) { if (s.draw(4) == 0) { if (s.draw(3)) pf_bias<ColumnVector>(s); else pf_bias<unsigned>(s); } else pf_any(s, SCHED); }
