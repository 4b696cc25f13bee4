// Square-root iterated extended Kalman filter with implicit measurement models.
#include "imodel.h"
#include "world.h"
#include <filter/SRiteratedextendedkalmanfilter.h>
using namespace W;
namespace {
struct Z { int k; ref::V z, sp; };
void sqrt_run(Sim& s) {
  int n = s.range(1, 5), nsens = s.range(1, 3), nsys = 1 + s.draw(2), iters = s.range(1, 4), nu = s.draw(2) ? s.range(1, 2) : 0; bool lin = s.draw(3) == 0;
  std::vector<SysM> sys(nsys); for (auto& m : sys) mksys(m, mkfun(s, n, n, nu, lin, 0.02, 1.0, true));
  std::vector<std::unique_ptr<Imp> > sens(nsens); for (auto& m : sens) { bool id = s.draw(3) == 0; m.reset(new Imp(imodel(s, n, lin, id), id)); }
  ref::Belief b; b.m = rvec(s, n, 4); b.P = rspd(s, n, 0.1, 9, s.draw(3) != 0);
  std::unique_ptr<Gaussian> prior; std::unique_ptr<SRIteratedExtendedKalmanFilter> flt; WordStream words(s.seed64()); UseStream us(words);
  auto build = [&](const ref::Belief& x) { int how = flt ? s.draw(4) : 0;
    if (how == 1) { std::unique_ptr<Gaussian> np(new Gaussian(cv(x.m), csym(x.P))); { Sut sut; flt->Reset(np.get()); } prior = std::move(np); s.probe("reset"); }
    else if (how == 2) { ColumnVector m = cv(x.m); SymmetricMatrix P = csym(x.P); Sut sut; flt->PriorSet(m, P); s.probe("prior_set"); }
    else if (how == 3) { ColumnVector m = cv(x.m); SymmetricMatrix P = csym(x.P); ref::M L(n, n); for (int j = 0; j < n; j++) { ref::R t = x.P(j, j); for (int k = 0; k < j; k++) t -= L(j, k) * L(j, k); L(j, j) = std::sqrt(std::max<ref::R>(t, 0)); for (int i = j + 1; i < n; i++) { ref::R v = x.P(i, j); for (int k = 0; k < j; k++) v -= L(i, k) * L(j, k); L(i, j) = L(j, j) > 0 ? v / L(j, j) : 0; } } Sut sut; if (s.draw(2)) flt->SRCovarianceSet(cm(L)); flt->PriorSet(m, P); if (s.draw(2)) flt->SRCovarianceSet(cm(L)); s.probe("square_root_set"); }
    else { flt.reset(); prior.reset(new Gaussian(cv(x.m), csym(x.P))); flt.reset(new SRIteratedExtendedKalmanFilter(prior.get(), iters)); if (s.draw(2)) prior.reset(); } };
  build(b); ref::Belief stored = b;
  Prng noise(s.seed64()); Link link(s); ref::V truth = ref::add(b.m, gaussvec(noise, b.P)); int ticks = s.chance(40) ? s.range(40, 150) : s.range(1, 20);
  std::vector<ref::V> us_; std::vector<Z> zs; unsigned pout = s.config >= 1 && s.draw(2) ? 60 : 0, pcrash = s.config >= 1 && s.draw(2) ? 60 : 0, pq = s.draw(2) ? 300 : 0, ptune = s.draw(3) == 0 ? 150 : 0;
  enum { PREDICT, MEAS, BOTH };
  for (int t = 0; t < ticks && ref::scale(truth) < 1e4; t++) { ref::V u = rvec(s, nu, 1); int si = s.draw(nsys); us_.push_back(u); int ui = us_.size() - 1; truth = ref::add(sys[si].f.f(truth, u), gaussvec(noise, sys[si].f.S(truth, u))); bool merged = false;
    for (int k = 0; k < nsens; k++) if (s.draw(3)) { const Fun& f = sens[k]->f; Z z; z.k = k; z.sp = rvec(s, f.nu, 1); z.z = ref::add(f.f(truth, z.sp), gaussvec(noise, f.S(truth, z.sp))); if (pout && s.chance(pout)) { s.fault("outlier"); for (auto& v : z.z) v += 50; } for (auto& v : z.z) v = (ref::R)(double)v; zs.push_back(z); if (!merged && s.chance(300)) { merged = true; link.send(t, BOTH, ui * 4 + si, zs.size() - 1); } else link.send(t + 0.1 * (k + 1), MEAS, k, zs.size() - 1); }
    if (!merged) link.send(t, PREDICT, ui * 4 + si, 0); }
  auto cur = [&]() { return belief(*flt->PostGet()); };
  auto correct = [&](const ref::Belief& p, const Z& z) { const Fun& f = sens[z.k]->f; ref::V x = p.m; ref::Belief o = p; for (int i = 0; i < iters; i++) { ref::M H = f.F(x, z.sp); o = ref::kf_correct(p, z.z, ref::add(f.f(x, z.sp), ref::mul(H, ref::add(p.m, x, -1))), H, f.S(x, z.sp)); x = o.m; } return o; };
  auto root = [&](const char* what, const ref::Belief& g) { ref::M J; { Sut sut; J = rm(flt->SRCovarianceGet()); } if (J.r != n) s.fail("square-root", "%s: square root has %d rows", what, J.r); ref::M P = ref::mul(J, ref::tr(J)); ref::M d = ref::add(P, g.P, -1); for (auto& v : P.a) if (!std::isfinite((double)v)) s.fail("square-root", "%s: square root is not finite", what); if (ref::scale(d) > 1e-8 * (1e-3 + ref::scale(g.P))) s.fail("square-root", "%s: square root times its transpose is %s, covariance %s", what, str(P).c_str(), str(g.P).c_str()); };
  cmp_belief(s, "initial belief", cur(), b, 1e-12); root("initial belief", cur());
  std::vector<Fun> sys0, sens0; for (auto& x : sys) sys0.push_back(x.f); for (auto& x : sens) sens0.push_back(x->f); Msg m; int steps = 0;
  while (link.next(m) && steps++ < 500) {
    if (ptune && s.chance(ptune)) { s.fault("model_retuned"); s.ev("retune"); if (s.draw(2)) { int k = s.draw(nsys); retune(s, sys[k], sys0[k], 0.9 / n + 0.1, 0.02, 1.0); } else { int k = s.draw(nsens); Imp& p = *sens[k]; Fun f = tuned(s, p.f, sens0[k], 1.0, 0.05, 1.0); if (p.ident) for (int i = 0; i < f.m; i++) for (int j = 0; j < f.m; j++) if (i != j) f.C(i, j) = 0; p.f = f; } }
    if (pcrash && s.chance(pcrash)) { s.fault("crash_restart"); s.ev("crash"); build(stored); cmp_belief(s, "restart", cur(), stored, 1e-9); root("restart", cur()); }
    ref::Belief want = cur(); bool amb = false, ok; const char* what;
    const SysM* sm = m.kind == MEAS ? 0 : &sys[m.id % 4]; const ref::V* u = m.kind == MEAS ? 0 : &us_[m.id / 4]; const Z* z = m.kind == PREDICT ? 0 : &zs[m.ref];
    if (sm) want = ref::kf_predict(want, sm->f.f(want.m, *u), sm->f.F(want.m, *u), sm->f.S(want.m, *u));
    if (z) { ref::Belief near = want; want = correct(want, *z); for (auto& v : near.m) v += 1e-12L * (1 + std::fabs((double)v)); for (int i = 0; i < n; i++) near.P(i, i) *= 1 + 1e-12L; near = correct(near, *z); ref::R d = ref::scale(ref::add(near.m, want.m, -1)); if (d > 1e-9 * (1 + ref::scale(want.m)) || ref::scale(ref::add(near.P, want.P, -1)) > 1e-9 * (1e-3 + ref::scale(want.P))) { amb = true; s.probe("ill_conditioned"); } }
    ColumnVector zu, zz, zsp; if (u) zu = cv(*u); if (z) { zz = cv(z->z); zsp = cv(z->sp); } SystemModel<ColumnVector>* S = sm ? sm->model.get() : 0; Imp* M = z ? sens[z->k].get() : 0; bool in = nu > 0, sp = M && M->f.nu > 0;
    { Sut sut;
      if (m.kind == PREDICT) { what = "predict"; ok = in || s.draw(2) ? flt->Update(S, zu) : flt->Update(S); }
      else if (m.kind == MEAS) { what = "measurement"; ok = sp || s.draw(2) ? flt->Update(M, zz, zsp) : flt->Update(M, zz); }
      else { what = "combined"; ok = in || sp || s.draw(2) ? flt->Update(S, zu, M, zz, zsp) : flt->Update(S, M, zz); } }
    s.ev(what, "t=%.2f model=%d u=%s z=%s", m.at, m.id, u ? str(*u).c_str() : "-", z ? str(z->z).c_str() : "-");
    if (!ok) s.fail("update-refused", "%s update returned false", what);
    ref::Belief got = cur(); h(s, got.m); h(s, got.P); if (!amb) cmp_belief(s, what, got, want, 1e-7); root(what, got);
    if (pq && s.chance(pq)) { s.probe("query"); int q = s.draw(4); s.ev("query", "%d", q); { Sut sut; if (q == 0) { int k = s.draw(nsens); Imp& p = *sens[k]; ref::V x = rvec(s, n, 3), v = rvec(s, p.f.nu, 1); p.PredictionGet(cv(v), cv(x)); } else if (q == 1) { Sample<ColumnVector> x(n); flt->PostGet()->SampleFrom(x); } else if (q == 2) (void)flt->SRCovarianceGet(); else { int k = s.draw(nsys); ref::V x = rvec(s, n, 3), v = rvec(s, nu, 1); (void)sys[k].model->PredictionGet(cv(v), cv(x)); } } cmp_belief(s, "after query", cur(), got, 1e-15); }
    if (ref::scale(got.m) > 1e4 || ref::scale(got.P) > 1e5) { s.probe("plant_diverged_stop"); break; }
    if (pcrash && s.chance(200)) { stored = got; s.ev("checkpoint"); }
  }
}
}
SCENARIO(C21, 2) { sqrt_run(s); }
