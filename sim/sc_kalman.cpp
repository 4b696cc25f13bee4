#include "kmodels.h"
#include "world.h"
#include <filter/extendedkalmanfilter.h>
#include <filter/iteratedextendedkalmanfilter.h>
#include <filter/innovationCheck.h>
using namespace W;
namespace {
struct U { ref::V u; };
struct Z { int sensor; ref::V z, sp; };

void kalman_run(Sim& s, bool lin) {
  int n = s.range(1, lin ? 6 : 4), nsens = s.range(1, 3), nsys = 1 + s.draw(2);
  int kind = s.draw(3);  // 0 EKF, 1 IEKF, 2 IEKF with innovation check
  int iters = s.range(1, 4); double minin = s.draw(2) ? 1e-8 : 1e-3;
  int nu = s.draw(2) ? s.range(1, 3) : 0;
  std::vector<SysM> sys(nsys); for (auto& m : sys) mksys(m, mkfun(s, n, n, nu, lin, 0.02, 1.0, true));
  std::vector<MeasM> sens(nsens); for (auto& m : sens) { int d = s.range(1, 4); int ns = s.chance(300) ? s.range(1, 2) : 0; mkmeas(m, mkfun(s, n, d, ns, lin, 0.05, 1.0, false)); }
  ref::Belief b; b.m = rvec(s, n, 4); b.P = rspd(s, n, 0.1, 9, s.draw(2));
  std::unique_ptr<Gaussian> prior; std::unique_ptr<KalmanFilter> flt; InnovationCheck ic(minin); WordStream words(s.seed64());
  auto build = [&](const ref::Belief& x) {
    std::unique_ptr<Gaussian> np(new Gaussian(cv(x.m), csym(x.P))); if (flt && s.draw(2)) { Sut sut; flt->Reset(np.get()); prior = std::move(np); s.probe("reset"); return; } flt.reset(); prior = std::move(np);
    if (kind == 0) flt.reset(new ExtendedKalmanFilter(prior.get())); else flt.reset(new IteratedExtendedKalmanFilter(prior.get(), iters, kind == 2 ? &ic : NULL));
  };
  UseStream us(words);
  build(b); ref::Belief fold = b, stored = b, storedfold = b; bool haspost = true; (void)haspost;
  // ---- simulated plant, sensors and link
  Prng noise(s.seed64()); Link link(s); ref::V truth = ref::add(b.m, gaussvec(noise, b.P));
  int ticks = s.chance(40) ? s.range(60, 250) : s.range(1, 30); std::vector<U> us_; std::vector<Z> zs; std::vector<int> period(nsens); for (auto& p : period) p = s.range(1, 3);
  unsigned pout = s.config >= 1 && s.draw(2) ? 60 : 0, pcrash = s.config >= 1 && s.draw(2) ? 30 : 0; unsigned pq = s.draw(2) ? 300 : 0;
  enum { PREDICT, MEAS, BOTH };
  for (int t = 0; t < ticks && ref::scale(truth) < 1e4; t++) {
    U u; u.u = rvec(s, nu, 1); int si = s.draw(nsys); us_.push_back(u); int ui = us_.size() - 1;
    truth = ref::add(sys[si].f.f(truth, u.u), gaussvec(noise, sys[si].f.S(truth, u.u)));
    bool merged = false;
    for (int k = 0; k < nsens; k++) if (t % period[k] == 0) {
      Z z; z.sensor = k; z.sp = rvec(s, sens[k].f.nu, 1); z.z = ref::add(sens[k].f.f(truth, z.sp), gaussvec(noise, sens[k].f.S(truth, z.sp)));
      if (pout && s.chance(pout)) { s.fault("outlier"); for (auto& v : z.z) v += 50; }
      for (auto& v : z.z) v = (ref::R)(double)v; zs.push_back(z);
      if (!merged && s.chance(300)) { merged = true; link.send(t, BOTH, ui * 4 + si, zs.size() - 1); } else link.send(t + 0.1 * (k + 1), MEAS, k, zs.size() - 1);
    }
    if (!merged) link.send(t, PREDICT, ui * 4 + si, 0);
  }
  // ---- filter node
  auto cur = [&]() { return belief(*flt->PostGet()); };
  auto correct = [&](const ref::Belief& p, const Z& z, bool* amb) {
    const Fun& f = sens[z.sensor].f;
    if (kind == 0) return ref::kf_correct(p, z.z, f.f(p.m, z.sp), f.F(p.m, z.sp), f.S(p.m, z.sp));
    ref::V x = p.m; ref::Belief o = p;
    for (int i = 0; i < iters; i++) {
      ref::M H = f.F(x, z.sp), Rm = f.S(x, z.sp); ref::V zp = ref::add(f.f(x, z.sp), ref::mul(H, ref::add(p.m, x, -1)));
      o = ref::kf_correct(p, z.z, zp, H, Rm); ref::V d = ref::add(o.m, x, -1); x = o.m; ref::R q = ref::dot(d, d);
      if (kind == 2) { if (std::fabs((double)q - minin) < 1e-5 * minin + 1e-13) *amb = true; if (q < minin) { s.probe("iekf_early_stop"); break; } }
    }
    return o;
  };
  Msg m; int steps = 0; std::vector<Fun> sys0, sens0; for (auto& x : sys) sys0.push_back(x.f); for (auto& x : sens) sens0.push_back(x.f);
  unsigned ptune = s.draw(3) == 0 ? 150 : 0; bool along = s.config >= 1 && s.draw(3) == 0; std::unique_ptr<ExtendedKalmanFilter> other; ref::Belief ob;   // another filter on the same model objects
  if (along) { ob.m = rvec(s, n, 3); ob.P = rspd(s, n, 0.1, 5, true); Gaussian g(cv(ob.m), csym(ob.P)); Sut sut; other.reset(new ExtendedKalmanFilter(&g)); }
  while (link.next(m) && steps++ < 700) {
    if (ptune && s.chance(ptune)) { s.fault("model_retuned"); s.ev("retune"); if (s.draw(2)) { int k = s.draw(nsys); retune(s, sys[k], sys0[k], 0.9 / n + 0.1, 0.02, 1.0); } else { int k = s.draw(nsens); retune(s, sens[k], sens0[k], 1.0, 0.05, 1.0); } }
    if (along && s.chance(300)) { s.fault("model_shared"); s.ev("other-filter"); if (s.draw(2)) { int k = s.draw(nsys); ref::V u = rvec(s, nu, 1); const Fun& f = sys[k].f; ob = ref::kf_predict(ob, f.f(ob.m, u), f.F(ob.m, u), f.S(ob.m, u)); Sut sut; other->Update(sys[k].model.get(), cv(u)); } else { int k = s.draw(nsens); const Fun& f = sens[k].f; ref::V sp = rvec(s, f.nu, 1), z = rvec(s, f.m, 4); ob = ref::kf_correct(ob, z, f.f(ob.m, sp), f.F(ob.m, sp), f.S(ob.m, sp)); Sut sut; other->Update(sens[k].model.get(), cv(z), cv(sp)); }
      ref::Belief g = belief(*other->PostGet()); if (ref::scale(g.m) > 1e4 || ref::scale(g.P) > 1e5) along = false; else cmp_belief(s, "another filter on the same models", g, ob, 1e-8); ob = g; }
    ref::Belief before = cur(), want = before; bool amb = false; const char* what = "?";
    if (pcrash && s.chance(pcrash)) { // process dies; restarts from the last stored belief
      s.fault("crash_restart"); s.ev("crash"); build(stored); fold = storedfold; before = want = cur();
      cmp_belief(s, "restart", cur(), stored, 1e-12);
    }
    bool ok = true;
    const SysM* sm = m.kind == MEAS ? 0 : &sys[m.id % 4]; const U* u = m.kind == MEAS ? 0 : &us_[m.id / 4]; const Z* z = m.kind == PREDICT ? 0 : &zs[m.ref];
    ColumnVector zu, zz, zsp; if (u) zu = cv(u->u); if (z) { zz = cv(z->z); zsp = cv(z->sp); }
    SystemModel<ColumnVector>* S = sm ? sm->model.get() : 0; MeasurementModel<ColumnVector, ColumnVector>* Mm = z ? sens[z->sensor].model.get() : 0;
    if (sm) { want = ref::kf_predict(want, sm->f.f(want.m, u->u), sm->f.F(want.m, u->u), sm->f.S(want.m, u->u)); fold = ref::kf_predict(fold, sm->f.f(fold.m, u->u), sm->f.F(fold.m, u->u), sm->f.S(fold.m, u->u)); }
    if (z) { ref::Belief near = want; want = correct(want, *z, &amb); bool a2 = false; fold = correct(fold, *z, &a2);
      { // conditioning of this correction: an input changed by 1e-12 must not move the result visibly, otherwise rounding decides
        for (auto& v : near.m) v += 1e-12L * (1 + std::fabs((double)v)); for (int i = 0; i < n; i++) near.P(i, i) *= 1 + 1e-12L; bool a3 = false; near = correct(near, *z, &a3); ref::R d = 0; for (int i = 0; i < n; i++) d = std::max<ref::R>(d, std::fabs((double)(near.m[i] - want.m[i]))); ref::M D = ref::add(near.P, want.P, -1);
        if (d > 1e-9 * (1 + ref::scale(want.m)) || ref::scale(D) > 1e-9 * (1e-3 + ref::scale(want.P))) { amb = true; s.probe("ill_conditioned"); } } }
    { Sut sut;
      bool in = nu > 0, sp = z && sens[z->sensor].f.nu > 0;
      if (m.kind == PREDICT) { what = "predict"; ok = in || s.draw(2) ? flt->Update(S, zu) : flt->Update(S); }
      else if (m.kind == MEAS) { what = "measurement"; ok = sp || s.draw(2) ? flt->Update(Mm, zz, zsp) : flt->Update(Mm, zz); }
      else { what = "combined"; if (in && sp) ok = flt->Update(S, zu, Mm, zz, zsp); else if (in) ok = flt->Update(S, zu, Mm, zz); else if (sp) ok = flt->Update(S, Mm, zz, zsp); else ok = s.draw(2) ? flt->Update(S, Mm, zz) : flt->Update(S, zu, Mm, zz, zsp); }
    }
    s.ev(what, "t=%.2f model=%d u=%s z=%s", m.at, m.id, u ? str(u->u).c_str() : "-", z ? str(z->z).c_str() : "-");
    if (!ok) s.fail("update-refused", "%s update returned false", what);
    ref::Belief got = cur(); h(s, got.m); h(s, got.P);
    if (!amb) cmp_belief(s, what, got, want, 1e-8);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (std::fabs((double)(got.P(i, j) - got.P(j, i))) > 1e-9 * (1e-3 + (double)ref::scale(got.P))) s.fail("asymmetric-cov", "%s: covariance not symmetric %s", what, str(got.P).c_str());
    { ref::M P = got.P; for (int i = 0; i < n; i++) P(i, i) += 1e-9L * (1 + ref::scale(P)); if (ref::mineig_ge(P) < 0) s.fail("cov-not-psd", "%s: covariance %s", what, str(got.P).c_str()); }
    if (lin && !amb) { cmp_belief(s, "history fold", got, fold, 1e-5); } else fold = got;
    // ---- queries between deliveries must not disturb the belief
    if (pq && s.chance(pq)) {
      int q = s.draw(8); s.ev("query", "%d", q); s.probe("query");
      Sut sut;
      if (q == 0 && kind == 0 && nsens) { int k = s.draw(nsens); if (sens[k].f.nu == 0) { const Fun& f = sens[k].f; ref::V zv = rvec(s, f.m, 3); double v = ((ExtendedKalmanFilter*)flt.get())->NisGet(sens[k].model.get(), cv(zv)); ref::R w = ref::nis(got, zv, f.f(got.m, ref::V()), f.F(got.m, ref::V()), f.S(got.m, ref::V())); s.probe("nis"); s.h(v); if (!close(v, (double)w, 1e-7 * (1 + (double)w))) s.fail("nis", "NIS %.12g, reference %.12g", v, (double)w); } }
      else if (q == 1) flt->AllocateMeasModel((unsigned)s.range(1, 5));
      else if (q == 2) { std::vector<unsigned> d; for (int i = 0; i < 2; i++) d.push_back(s.range(1, 5)); flt->AllocateMeasModel(d); if (kind == 0) ((ExtendedKalmanFilter*)flt.get())->AllocateMeasModelExt(d); else ((IteratedExtendedKalmanFilter*)flt.get())->AllocateMeasModelIExt(d); }
      else if (q == 3) { Sample<ColumnVector> x(n); flt->PostGet()->SampleFrom(x); }
      else if (q == 4) { ref::V x = rvec(s, n, 2); (void)flt->PostGet()->ProbabilityGet(cv(x)); }
      else if (q == 5) { int k = s.draw(nsys); const Fun& f = sys[k].f; ref::V x = rvec(s, n, 3), u = rvec(s, nu, 1); s.probe("model_query"); if (s.draw(2)) { ref::V p = rv(sys[k].model->PredictionGet(cv(u), cv(x))), w = f.f(x, u); for (int i = 0; i < n; i++) if (!close((double)p[i], (double)w[i], 1e-9 * 20)) s.fail("model-prediction", "system model predicts %s, expected %s", str(p).c_str(), str(w).c_str()); } else { Sample<ColumnVector> y(n); if (nu) y.ValueSet(sys[k].model->Simulate(cv(x), cv(u))); else y.ValueSet(sys[k].model->Simulate(cv(x))); } }
      else if (q == 6) { int k = s.draw(nsens); const Fun& f = sens[k].f; ref::V x = rvec(s, n, 3), u = rvec(s, f.nu, 1); s.probe("model_query"); if (s.draw(2)) { ref::V p = rv(sens[k].model->PredictionGet(cv(u), cv(x))), w = f.f(x, u); for (int i = 0; i < f.m; i++) if (!close((double)p[i], (double)w[i], 1e-9 * 20)) s.fail("model-prediction", "sensor model predicts %s, expected %s", str(p).c_str(), str(w).c_str()); } else if (lin) { ColumnVector y = f.nu ? sens[k].model->Simulate(cv(x), cv(u)) : sens[k].model->Simulate(cv(x)); (void)y; } else { ref::V z = rvec(s, f.m, 2); double g = f.nu ? sens[k].model->ProbabilityGet(cv(z), cv(x), cv(u)) : sens[k].model->ProbabilityGet(cv(z), cv(x)); s.h(g); } }
      else { std::unique_ptr<Gaussian> c(flt->PostGet()->Clone()); cmp_belief(s, "clone", belief(*c), got, 1e-13); }
      cmp_belief(s, "after query", cur(), got, 0 + 1e-15);
    }
    if (ref::scale(got.m) > 1e4 || ref::scale(got.P) > 1e5) { s.probe("plant_diverged_stop"); break; }   // outside the numerically meaningful range
    if (pcrash && s.chance(150)) { stored = got; storedfold = fold; s.ev("checkpoint"); }
  }
}
}
SCENARIO(C01, 2) { kalman_run(s, true); }
SCENARIO(C02, 2) { kalman_run(s, false); }
