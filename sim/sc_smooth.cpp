// C14: Rauch-Tung-Striebel smoothing against the joint Gaussian of the whole delivered history.
// C15: particle smoothing against the backward weight recursion.
#include "kmodels.h"
#include "pmodels.h"
#include "world.h"
#include <filter/extendedkalmanfilter.h>
#include <filter/bootstrapfilter.h>
#include <smoother/rauchtungstriebel.h>
#include <smoother/particlesmoother.h>
using namespace W;
namespace {
// joint density of all states x_0..x_k so far: every prediction appends a block, every measurement conditions the lot
struct Joint { int n; ref::V m; ref::M P;
  Joint(const ref::Belief& b) : n(b.m.size()), m(b.m), P(b.P) {}
  void predict(const Fun& f, const ref::V& u) { int N = m.size(); ref::V last(m.end() - n, m.end()); ref::V x = f.f(last, u); ref::M F = f.F(last, u), Q = f.S(last, u); ref::M G(N + n, N); for (int i = 0; i < N; i++) G(i, i) = 1; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) G(N + i, N - n + j) = F(i, j);
    ref::M R = ref::mul(ref::mul(G, P), ref::tr(G)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) R(N + i, N + j) += Q(i, j); P = R; m.insert(m.end(), x.begin(), x.end()); }
  void correct(const Fun& f, const ref::V& z, const ref::V& sp) { int N = m.size(); ref::V last(m.end() - n, m.end()); ref::M h = f.F(last, sp), H(f.m, N); for (int i = 0; i < f.m; i++) for (int j = 0; j < n; j++) H(i, N - n + j) = h(i, j); ref::Belief b; b.m = m; b.P = P; b = ref::kf_correct(b, z, f.f(last, sp), H, f.S(last, sp)); m = b.m; P = b.P; }
  ref::Belief at(int k) const { ref::Belief b; b.m.assign(m.begin() + k * n, m.begin() + (k + 1) * n); b.P = ref::M(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) b.P(i, j) = P(k * n + i, k * n + j); return b; }
};
}
SCENARIO(C14, 2) {
  bool lin = s.draw(4) != 3; int n = s.range(1, 5), nu = s.draw(2) ? s.range(1, 3) : 0, nsens = s.range(1, 2), nsys = 1 + s.draw(2);
  std::vector<SysM> sys(nsys); for (auto& m : sys) mksys(m, mkfun(s, n, n, nu, lin, 0.05, 1.0, true));
  std::vector<MeasM> sens(nsens); for (auto& m : sens) mkmeas(m, mkfun(s, n, s.range(1, 3), s.chance(300) ? s.range(1, 2) : 0, lin, 0.1, 1.0, false));
  ref::Belief b; b.m = rvec(s, n, 4); b.P = rspd(s, n, 0.1, 5, s.draw(2)); Joint J(b);
  WordStream words(s.seed64()); UseStream us(words); Gaussian prior(cv(b.m), csym(b.P)); ExtendedKalmanFilter flt(&prior);
  Prng noise(s.seed64()); Link link(s); ref::V truth = ref::add(b.m, gaussvec(noise, b.P)); int ticks = s.range(1, n > 3 ? 7 : 14);
  struct Z { int k; ref::V z, sp; }; std::vector<Z> zs; std::vector<ref::V> uu; enum { PREDICT, MEAS, BOTH };
  for (int t = 0; t < ticks; t++) { ref::V u = rvec(s, nu, 1); int si = s.draw(nsys); uu.push_back(u); truth = ref::add(sys[si].f.f(truth, u), gaussvec(noise, sys[si].f.S(truth, u))); bool merged = false;
    for (int k = 0; k < nsens; k++) if (s.chance(600)) { Z z; z.k = k; z.sp = rvec(s, sens[k].f.nu, 1); z.z = ref::add(sens[k].f.f(truth, z.sp), gaussvec(noise, sens[k].f.S(truth, z.sp))); for (auto& v : z.z) v = (ref::R)(double)v; zs.push_back(z); if (!merged && s.chance(300)) { merged = true; link.send(t, BOTH, t * 4 + si, zs.size() - 1); } else link.send(t + 0.1 * (k + 1), MEAS, k, zs.size() - 1); }
    if (!merged) link.send(t, PREDICT, t * 4 + si, 0); }
  struct Step { int sys, u; Fun f; }; std::vector<Fun> sys0, sens0; for (auto& x : sys) sys0.push_back(x.f); for (auto& x : sens) sens0.push_back(x.f); unsigned ptune = s.draw(3) == 0 ? 300 : 0; std::vector<Step> steps; std::vector<std::unique_ptr<Gaussian> > fil; std::vector<ref::Belief> filb; Msg m;
  auto keep = [&]() { fil.emplace_back(new Gaussian(flt.PostGet()->ExpectedValueGet(), flt.PostGet()->CovarianceGet())); filb.push_back(belief(*fil.back())); };
  while (link.next(m)) { if (ptune && s.chance(ptune)) { s.fault("model_retuned"); s.ev("retune"); if (s.draw(3)) { int k = s.draw(nsys); retune(s, sys[k], sys0[k], 0.9 / n + 0.1, 0.05, 1.0); } else { int k = s.draw(nsens); retune(s, sens[k], sens0[k], 1.0, 0.1, 1.0); } }
    const Z* z = m.kind != PREDICT ? &zs[m.ref] : 0; int si = m.id % 4, ui = m.id / 4;
    if (m.kind != MEAS) { keep(); Step st = {si, ui, sys[si].f}; steps.push_back(st); ColumnVector u = cv(uu[ui]); { Sut sut; if (nu) flt.Update(sys[si].model.get(), u); else flt.Update(sys[si].model.get()); } if (lin) J.predict(sys[si].f, uu[ui]); s.ev("predict"); }
    if (z) { ColumnVector zz = cv(z->z), sp = cv(z->sp); { Sut sut; if (sens[z->k].f.nu) flt.Update(sens[z->k].model.get(), zz, sp); else flt.Update(sens[z->k].model.get(), zz); } if (lin) J.correct(sens[z->k].f, z->z, z->sp); s.ev("measure"); } }
  keep(); ref::Belief cur = filb.back(); if (lin) cmp_belief(s, "filtered", cur, J.at(steps.size()), 1e-6);
  // ---- backward pass; the node may die in between and resume from the stored smoothed belief, or another smoother may run alongside
  std::unique_ptr<RauchTungStriebel> sm, other; { Sut sut; sm.reset(new RauchTungStriebel(fil.back().get())); } unsigned pcrash = s.config >= 1 && s.draw(2) ? 150 : 0; bool along = s.config >= 1 && s.draw(2); if (along) { Sut sut; other.reset(new RauchTungStriebel(fil[0].get())); }
  cmp_belief(s, "start", belief(*(Gaussian*)sm->PostGet()), cur, 1e-13); int passes = 1 + s.chance(200);
  for (int pass = 0; pass < passes; pass++) { if (pass) { cur = filb.back(); Sut sut; sm->Reset(fil.back().get()); s.ev("second-pass"); }
   for (int k = (int)steps.size() - 1; k >= 0; k--) {
    if (pcrash && s.chance(pcrash)) { s.fault("crash_restart"); s.ev("crash"); Gaussian g(cv(cur.m), csym(cur.P)); Sut sut; if (s.draw(2)) sm.reset(new RauchTungStriebel(&g)); else sm->Reset(&g); }
    if (along && s.chance(400)) { s.fault("other_smoother"); ColumnVector u2 = cv(rvec(s, nu, 1)); Sut sut; int q = s.draw(nsys); if (nu) other->Update(sys[q].model.get(), u2, fil[s.draw(fil.size())].get()); else other->Update(sys[q].model.get(), fil[s.draw(fil.size())].get()); }
    if (ptune) settune(sys[steps[k].sys], steps[k].f);   // time-varying system: the caller sets the parameters that were in force
    const Fun& f = steps[k].f; const ref::V& u = uu[steps[k].u]; ColumnVector cu = cv(u); bool ok; { Sut sut; ok = nu || s.draw(2) ? sm->Update(sys[steps[k].sys].model.get(), cu, fil[k].get()) : sm->Update(sys[steps[k].sys].model.get(), fil[k].get()); }
    s.ev("smooth", "k=%d", k); if (!ok) s.fail("refused", "backward step %d returned false", k); ref::Belief got = belief(*(Gaussian*)sm->PostGet()); h(s, got.m); h(s, got.P);
    // one backward step from the beliefs handed in
    ref::Belief p = ref::kf_predict(filb[k], f.f(filb[k].m, u), f.F(filb[k].m, u), f.S(filb[k].m, u)), want; ref::M K = ref::mul(ref::mul(filb[k].P, ref::tr(f.F(filb[k].m, u))), ref::inv(p.P)); want.m = ref::add(filb[k].m, ref::mul(K, ref::add(cur.m, p.m, -1))); want.P = ref::sym(ref::add(filb[k].P, ref::mul(ref::mul(K, ref::add(p.P, cur.P, -1)), ref::tr(K)), -1));
    cmp_belief(s, "backward step", got, want, 1e-8); if (lin) { cmp_belief(s, "smoothed marginal of the whole history", got, J.at(k), 1e-5); s.probe("joint_compared"); }
    ref::M P = got.P; for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) if (std::fabs((double)(P(i, j) - P(j, i))) > 1e-9 * (1e-3 + (double)ref::scale(P))) s.fail("asymmetric-cov", "smoothed covariance not symmetric %s", str(P).c_str()); } for (int i = 0; i < n; i++) P(i, i) += 1e-9L * (1 + ref::scale(P)); if (ref::mineig_ge(P) < 0) s.fail("cov-not-psd", "smoothed covariance %s", str(got.P).c_str());
    for (size_t i = 0; i < fil.size(); i++) { ref::Belief g = belief(*fil[i]); if (g.m != filb[i].m || g.P.a != filb[i].P.a) s.fail("filtered-modified", "filtered posterior %zu was modified by backward step %d", i, k); }
    cur = got; } }
}
namespace {
template <class T> Parts rset(Sim& s, int dim, int n) { Parts ps; for (int i = 0; i < n; i++) { P q; q.x = i && s.chance(80) ? ps[s.draw(i)].x : rkey<T>(s, dim, 3); q.w = s.chance(100) ? 0 : s.chance(50) ? 1e-9 : s.real(0.05, 1); ps.push_back(q); } ps[s.draw(n)].w = 0.5; return ps; }
template <class T> void ps_run(Sim& s) {
  int dim = std::is_same<T, ColumnVector>::value ? s.range(1, 3) : 1, T_ = s.range(1, 8); bool in = s.draw(2), real = s.chance(350), equal = s.draw(2); const bool C = TT<T>::cont; int nsys = 1 + s.draw(2);
  Env env(s.seed64()); std::vector<std::unique_ptr<TransPdf<T> > > tp; std::vector<std::unique_ptr<SystemModel<T> > > S; for (int i = 0; i < nsys; i++) { Trans t = mktrans(s, C, dim); if (s.chance(250)) { t.floor = 0; if (s.draw(2)) t.sd = 0.08; } tp.emplace_back(new TransPdf<T>(t, in, &env)); S.emplace_back(new SystemModel<T>(tp[i].get())); }
  WordStream words(s.seed64()); UseStream us(words); std::vector<std::unique_ptr<MCPdf<T> > > fil; std::vector<int> si; std::vector<Key> uu; int N = s.range(1, s.chance(100) ? 60 : 14);
  for (int k = 0; k < T_; k++) { si.push_back(s.draw(nsys)); uu.push_back(in ? rkey<T>(s, dim, 1) : Key()); }
  if (real) { // a forward pass by the library's own filter over a lossy link
    Parts p0 = rset<T>(s, dim, N); MCPdf<T> prior(N, dim); prior.ListOfSamplesSet(wsamples<T>(p0, dim)); Lik l = mklik(s, C); l.floor = 1e-4; LikPdf<double, T> lp(l, false, &env); MeasurementModel<double, T> mm(&lp); BootstrapFilter<T, double> bf(&prior, s.range(1, 3), 0.0); s.probe("forward_pass");
    for (int k = 0; k < T_; k++) { fil.emplace_back(((MCPdf<T>*)bf.PostGet())->Clone()); T u = TT<T>::mk(in ? uu[k] : Key(dim, 0.0)); Sut sut; if (in) bf.Update(S[si[k]].get(), u); else bf.Update(S[si[k]].get()); if (s.config >= 1 && s.chance(300)) { s.fault("loss"); continue; } bf.Update(&mm, s.sym(4)); if (s.config >= 1 && s.chance(200)) { s.fault("duplicate"); bf.Update(&mm, s.sym(4)); } }
    fil.emplace_back(((MCPdf<T>*)bf.PostGet())->Clone());
  } else for (int k = 0; k <= T_; k++) { int n = equal ? N : s.range(1, 14); fil.emplace_back(new MCPdf<T>(n, dim)); fil.back()->ListOfSamplesSet(wsamples<T>(rset<T>(s, dim, n), dim)); }
  std::vector<Parts> fp; for (auto& f : fil) fp.push_back(parts<T>(*f));
  std::unique_ptr<ParticleSmoother<T> > sm, other; { Sut sut; sm.reset(new ParticleSmoother<T>(fil.back().get())); } bool along = s.config >= 1 && s.draw(2); if (along) { Sut sut; other.reset(new ParticleSmoother<T>(fil[0].get())); } unsigned pcrash = s.config >= 1 && s.draw(2) ? 150 : 0;
  Parts cur = parts<T>(*(MCPdf<T>*)sm->PostGet()); cmp_parts(s, "start", "initial", cur, fp.back());
  for (int k = T_ - 1; k >= 0; k--) {
    if (pcrash && s.chance(pcrash)) { s.fault("crash_restart"); s.ev("crash"); MCPdf<T> st(cur.size(), dim); st.ListOfSamplesSet(wsamples<T>(cur, dim)); Sut sut; if (s.draw(2)) sm.reset(new ParticleSmoother<T>(&st)); else sm->Reset(&st); }
    if (along && tp[0]->t.floor > 0 && s.chance(400)) { s.fault("other_smoother"); T u2 = TT<T>::mk(rkey<T>(s, dim, 1)); Sut sut; int q = 0; if (in) other->Update(S[q].get(), u2, fil[s.draw(fil.size())].get()); else other->Update(S[q].get(), fil[s.draw(fil.size())].get()); }
    // reference
    const Parts& f = fp[k]; const Trans& t = tp[si[k]]->t; std::vector<std::vector<double> > p(cur.size(), std::vector<double>(f.size())); std::vector<long double> g(cur.size(), 0); bool amb = false;
    for (size_t j = 0; j < cur.size(); j++) { for (size_t i = 0; i < f.size(); i++) { p[j][i] = t.dens(cur[j].x, f[i].x, uu[k]); g[j] += (long double)f[i].w * p[j][i]; } if (g[j] > 0 && g[j] < 1e-280L) amb = true; if (g[j] == 0) s.probe("unreachable_particle"); }
    Parts want = f; long double tot = 0; std::vector<long double> w(f.size(), 0); for (size_t i = 0; i < f.size(); i++) { for (size_t j = 0; j < cur.size(); j++) if (g[j] > 0) w[i] += (long double)cur[j].w * p[j][i] / g[j]; w[i] *= f[i].w; tot += w[i]; } if (amb || !(tot > 1e-9L)) { s.probe("nothing_reachable_stop"); return; }
    for (size_t i = 0; i < f.size(); i++) want[i].w = (double)(w[i] / tot);
    T u = TT<T>::mk(in ? uu[k] : Key(dim, 0.0)); bool ok; { Sut sut; ok = in || s.draw(2) ? sm->Update(S[si[k]].get(), u, fil[k].get()) : sm->Update(S[si[k]].get(), fil[k].get()); } s.ev(("smooth " + std::to_string(f.size()) + " from " + std::to_string(cur.size())).c_str(), "k=%d", k); if (!ok) s.fail("refused", "backward step %d returned false", k);
    Parts got = parts<T>(*(MCPdf<T>*)sm->PostGet()); hparts(s, got); valid_parts(s, "backward step", got, f.size()); cmp_parts(s, "backward step", "smoothed", got, want, 1e-10);
    const std::vector<double>& c = ((MCPdf<T>*)sm->PostGet())->CumulativePDFGet(); long double acc = 0; if (c.size() != got.size() + 1) s.fail("cumulative", "backward step: cumulative sums of %zu entries for %zu particles", c.size(), got.size()); for (size_t i = 0; i < got.size(); i++) { acc += got[i].w; if (!close(c[i + 1], (double)acc, 1e-9)) s.fail("cumulative", "backward step: cumulative sum %zu is %.12g, weights give %.12g", i + 1, c[i + 1], (double)acc); }
    for (size_t i = 0; i < fil.size(); i++) { Parts q = parts<T>(*fil[i]); for (size_t j = 0; j < q.size(); j++) if (q.size() != fp[i].size() || q[j].x != fp[i][j].x || q[j].w != fp[i][j].w) s.fail("filtered-modified", "filtered particles %zu were modified by backward step %d", i, k); }
    cur = got; }
}
}
SCENARIO(C15, 2) { switch (s.draw(3)) { case 0: ps_run<ColumnVector>(s); break; case 1: ps_run<unsigned>(s); break; default: ps_run<double>(s); } }
