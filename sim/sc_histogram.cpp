#include "dmodels.h"
#include "pmodels.h"
#include "world.h"
using namespace W;
namespace {
// measurement of a continuous value by a harness model over integer states
template <class MV> void hist_run(Sim& s) {
  int n = s.chance(80) ? 1 : s.range(2, s.chance(80) ? 60 : 12), nu = s.draw(2) ? s.range(1, 4) : 0, nsys = 1 + s.draw(2), nsens = s.range(1, 3);
  std::vector<Table> st; std::vector<std::unique_ptr<DiscreteConditionalPdf> > sp; std::vector<std::unique_ptr<DiscreteSystemModel> > sm;
  for (int i = 0; i < nsys; i++) { std::vector<int> d(1, n); if (nu) d.push_back(nu); st.push_back(rtable(s, n, d, s.draw(2) ? 300 : 0)); sp.emplace_back(mkcond(st[i])); sm.emplace_back(new DiscreteSystemModel(sp[i].get())); }
  struct Sens { DiscreteConditionalPdf* raw; bool table, par; Table t; int nz, np; Lik l; std::unique_ptr<ConditionalPdf<MV, int> > pdf; std::unique_ptr<MeasurementModel<MV, int> > m; }; std::vector<Sens> sens(nsens);
  for (auto& k : sens) { k.table = std::is_same<MV, int>::value && s.draw(2); k.par = s.chance(350); k.np = s.range(1, 3);
    if (k.table) { k.nz = s.range(2, 5); std::vector<int> d(1, n); if (k.par) d.push_back(k.np); k.t = rtable(s, k.nz, d, s.draw(2) ? 250 : 0); k.raw = mkcond(k.t); k.pdf.reset((ConditionalPdf<MV, int>*)(void*)static_cast<ConditionalPdf<int, int>*>(k.raw)); }
    else { k.l = mklik(s, false); k.pdf.reset(new LikPdf<MV, int>(k.l, k.par)); }
    k.m.reset(new MeasurementModel<MV, int>(k.pdf.get())); }
  DV prior = rdist(s, n, s.draw(2) ? 200 : 0), fold = prior;
  WordStream words(s.seed64()); UseStream us(words); std::unique_ptr<DiscretePdf> pr; std::unique_ptr<HistogramFilter<MV> > flt;
  auto build = [&](const DV& p) { bool again = flt && s.draw(2); if (!again) flt.reset(); std::unique_ptr<DiscretePdf> np(new DiscretePdf(n)); std::vector<Probability> v = pv(p); Sut sut; np->ProbabilitiesSet(v); if (again) { flt->Reset(np.get()); s.probe("reset"); } pr = std::move(np); if (!again) flt.reset(new HistogramFilter<MV>(pr.get())); };
  build(prior); auto cur = [&]() { return probs(*flt->PostGet()); };
  cmp_probs(s, "initial", "initial", cur(), prior);
  Link link(s); int ticks = s.chance(50) ? s.range(50, 150) : s.range(1, 20); enum { PREDICT, MEAS, BOTH }; struct Z { int k; double z; int sp; }; std::vector<Z> zs; std::vector<int> us_;
  unsigned pcrash = s.config >= 1 && s.draw(2) ? 40 : 0, pq = s.draw(2) ? 300 : 0;
  for (int t = 0; t < ticks; t++) { us_.push_back(nu ? (int)s.draw(nu) : 0); int si = s.draw(nsys); bool merged = false;
    for (int k = 0; k < nsens; k++) if (s.chance(600)) { Z z; z.k = k; z.sp = s.draw(sens[k].table ? sens[k].np : 5); z.z = sens[k].table ? (double)s.draw(sens[k].nz) : (std::is_same<MV, double>::value ? s.real(-2, 14) : (double)s.draw(14)); zs.push_back(z); if (!merged && s.chance(350)) { merged = true; link.send(t, BOTH, t * 4 + si, zs.size() - 1); } else link.send(t + 0.1 * (k + 1), MEAS, k, zs.size() - 1); }
    if (!merged) link.send(t, PREDICT, t * 4 + si, 0); }
  Msg m; DV stored = prior; int since = 0;
  unsigned ptune = s.draw(3) == 0 ? 150 : 0; std::unique_ptr<HistogramFilter<MV> > other; DV ob; bool along = s.config >= 1 && s.draw(3) == 0; if (along) { ob = rdist(s, n, 100); DiscretePdf q(n); std::vector<Probability> v = pv(ob); q.ProbabilitiesSet(v); Sut sut; other.reset(new HistogramFilter<MV>(&q)); }
  while (link.next(m)) {
    if (ptune && s.chance(ptune)) { s.fault("model_retuned"); s.ev("retune"); auto row = [&](Table& t, DiscreteConditionalPdf& p) { std::vector<int> a; for (int d : t.dims) a.push_back(s.draw(d)); DV& r = t.rows[t.idx(a)]; if (s.draw(2)) r = rdist(s, t.n, 200); else if (t.n > 1) std::swap(r[s.draw(t.n)], r[s.draw(t.n)]); for (auto& x : r) x = (ref::R)(double)x; Sut sut; for (int x = 0; x < t.n; x++) p.ProbabilitySet((double)r[x], x, a); };
      int k = s.draw(nsens); if (s.draw(2)) { int q = s.draw(nsys); row(st[q], *sp[q]); } else if (sens[k].table) row(sens[k].t, *sens[k].raw); else { sens[k].l = mklik(s, false); ((LikPdf<MV, int>*)sens[k].pdf.get())->l = sens[k].l; } }
    if (along && s.chance(300)) { s.fault("model_shared"); s.ev("other-filter"); int q = s.draw(nsys), u = nu ? (int)s.draw(nu) : 0; { Sut sut; if (nu) other->Update(sm[q].get(), u); else other->Update(sm[q].get()); } DV o(n, 0); for (int x = 0; x < n; x++) { std::vector<int> a(1, x); if (nu) a.push_back(u); const DV& r = st[q].row(a); for (int y = 0; y < n; y++) o[y] += r[y] * ob[x]; } ob = dnorm(o); DV g = probs(*other->PostGet()); cmp_probs(s, "another filter on the same models", "posterior", g, ob); ob = g; }
    if (pcrash && s.chance(pcrash)) { s.fault("crash_restart"); s.ev("crash"); build(stored); cmp_probs(s, "restart", "restart", cur(), dnorm(stored)); fold = stored; since = 0; }
    DV before = cur(), want = before; bool pr_ = m.kind != MEAS, me = m.kind != PREDICT; const Z* z = me ? &zs[m.ref] : 0; int si = m.id % 4, u = pr_ ? us_[m.id / 4] : 0;
    auto pred = [&](const DV& b) { DV o(n, 0); for (int x = 0; x < n; x++) { std::vector<int> a(1, x); if (nu) a.push_back(u); const DV& r = st[si].row(a); for (int y = 0; y < n; y++) o[y] += r[y] * b[x]; } return o; };
    auto lik = [&](int x) -> ref::R { const Sens& k = sens[z->k]; if (k.table) { std::vector<int> a(1, x); if (k.par) a.push_back(z->sp); return k.t.row(a)[(int)z->z]; } return k.l.p(z->z, Key(1, (double)x), k.par ? Key(1, (double)z->sp) : Key()); };
    if (pr_) { want = dnorm(pred(want)); fold = dnorm(pred(fold)); }
    bool impossible = false; DV predicted = want, fpred = fold;
    if (me) { ref::R t = 0, tf = 0; for (int x = 0; x < n; x++) { want[x] *= lik(x); t += want[x]; fold[x] *= lik(x); tf += fold[x]; } if (!(t > 0)) { impossible = true; want = predicted; fold = fpred; } else if (t < 1e-200 || !(tf > 1e-200)) { s.probe("underflow_stop"); return; } else { want = dnorm(want); fold = dnorm(fold); } }
    bool ok; const char* what = pr_ ? (me ? "combined update" : "prediction") : "measurement update"; uint64_t w0 = words.consumed;
    { Sut sut; MeasurementModel<MV, int>* M = me ? sens[z->k].m.get() : 0; SystemModel<int>* S = pr_ ? sm[si].get() : 0; MV zz = me ? (MV)z->z : MV();
      bool par = me && sens[z->k].par;
      if (pr_ && me) { if (nu && par) ok = flt->Update(S, u, M, zz, z->sp); else if (nu) ok = flt->Update(S, u, M, zz, 0); else if (par) ok = flt->Update(S, 0, M, zz, z->sp); else ok = flt->Update(S, M, zz); }
      else if (pr_) ok = nu ? flt->Update(S, u) : flt->Update(S); else ok = par ? flt->Update(M, zz, z->sp) : flt->Update(M, zz); }
    s.ev(what, "t=%.2f id=%d z=%.4g", m.at, m.id, z ? z->z : 0.0);
    if (impossible) s.probe("impossible");
    if (ok == impossible) s.fail(impossible ? "impossible-accepted" : "update-refused", "%s returned %d", what, (int)ok);
    DV got = cur(); for (auto x : got) s.h((double)x);
    cmp_probs(s, what, "posterior", got, want); if (since++ < 60) cmp_probs(s, "history fold", "history", got, fold, 1e-7); else fold = got;
    for (int x = 0; x < n; x++) if (!close((double)flt->PostGet()->ProbabilityGet(x), (double)got[x], 0)) s.fail("probability-query", "ProbabilityGet(%d) disagrees with ProbabilitiesGet", x);
    if (words.consumed != w0) s.fail("unexpected-randomness", "%s consumed random words", what);
    if (pq && s.chance(pq)) { s.ev("query"); Sut sut; int q = s.draw(4); DiscretePdf* post = flt->PostGet();
      if (q == 0) { Sample<int> x; post->SampleFrom(x); if (x.ValueGet() < 0 || x.ValueGet() >= n || !(got[x.ValueGet()] > 0)) s.fail("sample-support", "sample %d of the posterior", x.ValueGet()); }
      else if (q == 1) { int mp = post->MostProbableStateGet(); for (int x = 0; x < n; x++) if (got[x] > got[mp]) s.fail("most-probable", "state %d reported, %d is more probable", mp, x); }
      else if (q == 2) { std::unique_ptr<DiscretePdf> c(post->Clone()); cmp_probs(s, "clone", "clone", probs(*c), got, 0); } else { std::vector<Sample<int> > l; post->SampleFrom(l, s.range(0, 5), s.draw(2) ? SampleMthd::RIPLEY : SampleMthd::DEFAULT, NULL); }
      cmp_probs(s, "after query", "query", cur(), got, 0); }
    if (pcrash && s.chance(200)) { stored = got; s.ev("checkpoint"); }
  }
}
}
SCENARIO(C03, 2) { if (s.draw(2)) hist_run<int>(s); else hist_run<double>(s); }
