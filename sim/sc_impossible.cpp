// C10: impossible measurements. A filter that meets them and its twin that never does.
#include "dmodels.h"
#include "pmodels.h"
#include "world.h"
#include <pdf/mixture.h>
#include <filter/bootstrapfilter.h>
#include <filter/particlefilter.h>
#include <filter/mixtureBootstrapFilter.h>
#include <filter/mixtureParticleFilter.h>
using namespace W;
namespace {
enum { PREDICT, MEAS, BOTH };
struct In { int si; Key u; }; struct Z { int k; double z; Key sp; };
struct Snap { std::vector<double> w; std::vector<Parts> c; };   // component weights and particles (one component for a plain filter)
template <class SV, class MV> struct Spec { int dim; bool in, generic, mixture; std::vector<Trans> sys; Trans prop; std::vector<Lik> lik; std::vector<bool> par; int period; double thr; std::vector<Parts> init; std::vector<double> w; uint64_t seed; };
template <class SV, class MV> struct Node {
  const Spec<SV, MV>& sp; Env env; WordStream words; std::vector<std::unique_ptr<TransPdf<SV> > > tp; std::vector<std::unique_ptr<SystemModel<SV> > > sm; std::unique_ptr<TransPdf<SV> > prop; std::vector<std::unique_ptr<LikPdf<MV, SV> > > lp; std::vector<std::unique_ptr<MeasurementModel<MV, SV> > > mm;
  std::unique_ptr<MCPdf<SV> > pr; std::unique_ptr<Mixture<SV> > mpr; std::unique_ptr<ParticleFilter<SV, MV> > pf; std::unique_ptr<MixtureParticleFilter<SV, MV> > mf;
  Node(const Spec<SV, MV>& s_) : sp(s_), env(s_.seed), words(s_.seed ^ 0x55) {
    UseStream us(words); for (auto& t : sp.sys) { tp.emplace_back(new TransPdf<SV>(t, sp.in, &env)); sm.emplace_back(new SystemModel<SV>(tp.back().get())); } prop.reset(new TransPdf<SV>(sp.prop, sp.in, &env));
    for (size_t i = 0; i < sp.lik.size(); i++) { lp.emplace_back(new LikPdf<MV, SV>(sp.lik[i], sp.par[i], &env)); mm.emplace_back(new MeasurementModel<MV, SV>(lp.back().get())); }
    std::vector<std::unique_ptr<MCPdf<SV> > > cs; std::vector<Pdf<SV>*> raw; for (auto& p : sp.init) { cs.emplace_back(new MCPdf<SV>(p.size(), sp.dim)); cs.back()->ListOfSamplesSet(wsamples<SV>(p, sp.dim)); raw.push_back(cs.back().get()); }
    Sut sut; if (sp.mixture) { mpr.reset(new Mixture<SV>(raw)); std::vector<Probability> w; for (double x : sp.w) w.push_back(Probability(x)); mpr->WeightsSet(w); if (sp.generic) mf.reset(new MixtureParticleFilter<SV, MV>(mpr.get(), prop.get(), sp.period, sp.thr)); else mf.reset(new MixtureBootstrapFilter<SV, MV>(mpr.get(), sp.period, sp.thr)); }
    else { pr = std::move(cs[0]); if (sp.generic) pf.reset(new ParticleFilter<SV, MV>(pr.get(), prop.get(), sp.period, sp.thr)); else pf.reset(new BootstrapFilter<SV, MV>(pr.get(), sp.period, sp.thr)); } }
  bool update(int kind, const In* i, const Z* z) { UseStream us(words); SystemModel<SV>* S = i ? sm[i->si].get() : 0; MeasurementModel<MV, SV>* M = z ? mm[z->k].get() : 0; SV U = TT<SV>::mk(i && sp.in ? i->u : Key(sp.dim, 0.0)), P_ = TT<SV>::mk(z && z->sp.size() ? z->sp : Key(sp.dim, 0.0)); MV Zv = TT<MV>::mk(Key(1, z ? z->z : 0)); bool par = z && z->sp.size(); env.log.clear(); Sut sut;
    Filter<SV, MV>* f = sp.mixture ? (Filter<SV, MV>*)mf.get() : (Filter<SV, MV>*)pf.get();
    if (kind == BOTH) { if (sp.in && par) return f->Update(S, U, M, Zv, P_); if (sp.in) return f->Update(S, U, M, Zv); if (par) return f->Update(S, M, Zv, P_); return f->Update(S, M, Zv); }
    if (kind == PREDICT) return sp.in ? f->Update(S, U) : f->Update(S); return par ? f->Update(M, Zv, P_) : f->Update(M, Zv); }
  Snap snap() { Snap o; if (!sp.mixture) { o.w.push_back(1); o.c.push_back(parts<SV>(*(MCPdf<SV>*)pf->PostGet())); return o; } Mixture<SV>* m = mf->PostGet(); std::vector<Probability> w = m->WeightsGet(); for (unsigned i = 0; i < m->NumComponentsGet(); i++) { o.w.push_back((double)w[i]); o.c.push_back(parts<SV>(*dynamic_cast<MCPdf<SV>*>(m->ComponentGet(i)))); } return o; }
};
void cmp_snap(Sim& s, const char* what, const char* cls, const Snap& a, const Snap& b) {
  if (a.w.size() != b.w.size()) s.fail(std::string(cls) + "-components", "%s: %zu components, expected %zu", what, a.w.size(), b.w.size()); double t = 0;
  for (size_t c = 0; c < a.w.size(); c++) { if (!close(a.w[c], b.w[c], 1e-11)) s.fail(std::string(cls) + "-component-weight", "%s: component %zu has weight %.12g, expected %.12g", what, c, a.w[c], b.w[c]); t += a.w[c]; if (!(b.w[c] > 0)) continue; valid_parts(s, what, a.c[c], b.c[c].size()); cmp_parts(s, what, cls, a.c[c], b.c[c], 1e-10); } if (!close(t, 1, 1e-9)) s.fail("not-normalised", "%s: component weights sum to %.12g", what, t); }
template <class SV, class MV> void run(Sim& s, bool mixture) {
  Spec<SV, MV> sp; const bool C = TT<SV>::cont; sp.dim = std::is_same<SV, ColumnVector>::value ? s.range(1, 3) : 1; sp.in = s.draw(2); sp.generic = s.chance(350); sp.mixture = mixture; int nsys = 1 + s.draw(2), nsens = s.range(1, 3); for (int i = 0; i < nsys; i++) sp.sys.push_back(mktrans(s, C, sp.dim)); sp.prop = mktrans(s, C, sp.dim); if (!C) sp.prop.K = sp.sys[0].K;
  for (int i = 0; i < nsens; i++) { sp.lik.push_back(mklik(s, C)); sp.lik[i].floor = 1e-4; sp.par.push_back(s.chance(350)); } sp.period = 0; sp.thr = 0; int nc = mixture ? s.range(1, 4) : 1; double tw = 0;
  for (int c = 0; c < nc; c++) { int N = s.chance(60) ? 1 : s.range(2, 25); Parts p; double t = 0; for (int i = 0; i < N; i++) { P q; q.x = rkey<SV>(s, sp.dim, 4); q.w = s.chance(60) ? 0 : s.real(0.05, 1); t += q.w; p.push_back(q); } if (t <= 0) p[0].w = 1; sp.init.push_back(p); sp.w.push_back(s.chance(80) ? 0 : s.real(0.05, 1)); tw += sp.w.back(); } if (tw <= 0) { sp.w[0] = 1; }
  if (s.draw(2)) sp.period = s.range(1, 4); else sp.thr = s.real(0.3, 1.05) * sp.init[0].size(); sp.seed = s.seed64();
  Node<SV, MV> a(sp), b(sp); cmp_snap(s, "initial belief", "initial", a.snap(), b.snap());
  unsigned pimp = s.draw(2) ? 120 : 450; int ticks = s.range(1, 18); Link link(s); std::vector<In> ins; std::vector<Z> zs; bool faults = s.config >= 1;
  for (int t = 0; t < ticks; t++) { In i; i.si = s.draw(nsys); i.u = sp.in ? rkey<SV>(s, sp.dim, 1) : Key(); ins.push_back(i); bool merged = false;
    for (int k = 0; k < nsens; k++) if (s.chance(600)) { Z z; z.k = k; z.z = C || !std::is_same<MV, unsigned>::value ? s.sym(4) : (double)s.draw(12); z.sp = sp.par[k] ? rkey<SV>(s, sp.dim, 1) : Key(); if (faults && s.chance(pimp)) { z.z = std::is_same<MV, unsigned>::value ? 200000 : (s.draw(2) ? 1e6 : -2e5); if (std::is_same<MV, unsigned>::value || z.z > 0 || true) {} } zs.push_back(z); if (!merged && s.chance(450)) { merged = true; link.send(t, BOTH, t, zs.size() - 1); } else link.send(t + 0.1 * (k + 1), MEAS, t, zs.size() - 1); }
    if (!merged) link.send(t, PREDICT, t, 0); }
  Msg m; while (link.next(m)) { const In* i = m.kind == MEAS ? 0 : &ins[m.id]; const Z* z = m.kind == PREDICT ? 0 : &zs[m.ref]; bool imp = z && std::fabs(z->z) > 1e5; const char* what = imp ? (i ? "impossible combined update" : "impossible measurement") : i ? (z ? "combined update" : "prediction") : "measurement update"; Snap before = a.snap();
    bool ok = a.update(m.kind, i, z); s.ev(what, "t=%.2f z=%.5g", m.at, z ? z->z : 0.0); Snap after = a.snap(); for (auto& p : after.c) hparts(s, p);
    if (imp) { s.fault("impossible_measurement"); if (ok) s.fail("impossible-accepted", "%s reported success", what); if (i) { if (!b.update(PREDICT, i, 0)) s.fail("update-refused", "prediction returned false"); cmp_snap(s, what, "kept-prediction", after, b.snap()); } else cmp_snap(s, what, "kept-belief", after, before); a.words = b.words; a.env.noise = b.env.noise; a.env.ctr = b.env.ctr; }
    else { bool okb = b.update(m.kind, i, z); if (!ok) s.fail("update-refused", "%s returned false", what); if (!okb) s.fail("update-refused", "%s returned false on the twin", what); cmp_snap(s, what, "diverged", after, b.snap()); }
  }
}
template <class MV> void hist(Sim& s) {
  int n = s.chance(80) ? 1 : s.range(2, 12), nu = s.draw(2) ? s.range(1, 3) : 0, nsens = s.range(1, 2); std::vector<int> d(1, n); if (nu) d.push_back(nu); Table st = rtable(s, n, d, 250); std::unique_ptr<DiscreteConditionalPdf> sp(mkcond(st)); DiscreteSystemModel sm(sp.get());
  std::vector<std::unique_ptr<LikPdf<MV, int> > > lp; std::vector<std::unique_ptr<MeasurementModel<MV, int> > > mm; for (int i = 0; i < nsens; i++) { Lik l = mklik(s, false); l.floor = 1e-4; lp.emplace_back(new LikPdf<MV, int>(l, s.chance(350))); mm.emplace_back(new MeasurementModel<MV, int>(lp[i].get())); }
  DV prior = rdist(s, n, 200); WordStream words(s.seed64()); UseStream us(words); DiscretePdf pr(n); std::vector<Probability> v = pv(prior); pr.ProbabilitiesSet(v); std::unique_ptr<HistogramFilter<MV> > a, b; { Sut sut; a.reset(new HistogramFilter<MV>(&pr)); b.reset(new HistogramFilter<MV>(&pr)); } unsigned pimp = s.draw(2) ? 120 : 450; Link link(s); int ticks = s.range(1, 25); struct I { int u; }; std::vector<int> ins; std::vector<Z> zs;
  for (int t = 0; t < ticks; t++) { ins.push_back(nu ? s.draw(nu) : 0); bool merged = false; for (int k = 0; k < nsens; k++) if (s.chance(600)) { Z z; z.k = k; z.z = s.draw(14); z.sp = Key(1, (double)s.draw(4)); if (s.config >= 1 && s.chance(pimp)) z.z = 1e6; zs.push_back(z); if (!merged && s.chance(450)) { merged = true; link.send(t, BOTH, t, zs.size() - 1); } else link.send(t + 0.1 * (k + 1), MEAS, t, zs.size() - 1); } if (!merged) link.send(t, PREDICT, t, 0); }
  auto upd = [&](HistogramFilter<MV>* f, int kind, int u, const Z* z) { Sut sut; MeasurementModel<MV, int>* M = z ? mm[z->k].get() : 0; MV zz = z ? (MV)z->z : MV(); int p = z ? (int)z->sp[0] : 0; bool par = z && lp[z->k]->sp; if (kind == PREDICT) return nu ? f->Update(&sm, u) : f->Update(&sm); if (kind == MEAS) return par ? f->Update(M, zz, p) : f->Update(M, zz); return nu || par ? f->Update(&sm, u, M, zz, p) : f->Update(&sm, M, zz); };
  Msg m; while (link.next(m)) { const Z* z = m.kind == PREDICT ? 0 : &zs[m.ref]; bool imp = z && z->z > 1e5; int u = ins[m.id]; const char* what = imp ? (m.kind == BOTH ? "impossible combined update" : "impossible measurement") : m.kind == BOTH ? "combined update" : m.kind == PREDICT ? "prediction" : "measurement update"; DV before = probs(*a->PostGet()); bool ok = upd(a.get(), m.kind, u, z); s.ev(what, "t=%.2f", m.at); DV after = probs(*a->PostGet()); for (auto x : after) s.h((double)x);
    if (imp) { s.fault("impossible_measurement"); if (ok) s.fail("impossible-accepted", "%s reported success", what); if (m.kind == BOTH) upd(b.get(), PREDICT, u, 0); else cmp_probs(s, what, "kept-belief", after, before, 1e-12); } else { bool okb = upd(b.get(), m.kind, u, z); if (!ok || !okb) s.fail("update-refused", "%s returned false", what); }
    cmp_probs(s, what, imp ? "kept-prediction" : "diverged", after, probs(*b->PostGet()), 1e-10); }
}
// edits that supply weights summing to zero, in every history position
template <class T> void edits(Sim& s) {
  int n = s.range(1, 10), dim = std::is_same<T, ColumnVector>::value ? 2 : 1; WordStream words(s.seed64()); UseStream us(words); auto mk = [&](bool zero, int k) { Parts p; for (int i = 0; i < k; i++) { P q; q.x = rkey<T>(s, dim, 4); q.w = zero ? 0 : s.real(0.05, 2); p.push_back(q); } return p; };
  MCPdf<T> a(n, dim); Parts cur = normalised(mk(false, n)); a.ListOfSamplesSet(wsamples<T>(cur, dim)); DiscretePdf d(n); Mixture<T> m((unsigned)dim); { MCPdf<T> c(a); for (int i = 0; i < n; i++) m.AddComponent(c); std::vector<Probability> w; for (int i = 0; i < n; i++) w.push_back(1.0); m.WeightsSet(w); } DV dm = probs(d); std::vector<Probability> mw = m.WeightsGet(); int ops = s.range(1, 15);
  for (int t = 0; t < ops; t++) { bool zero = s.config >= 1 && s.draw(2), ok; if (zero) s.fault("zero_weights"); const char* what = "?";
    switch (s.draw(4)) { case 0: { what = "sample update"; Parts p = mk(zero, n); { Sut sut; ok = a.ListOfSamplesUpdate(wsamples<T>(p, dim)); } if (!zero) cur = normalised(p); break; } case 1: { what = "sample replacement"; Parts p = mk(zero, zero ? s.range(1, 12) : n); { Sut sut; ok = a.ListOfSamplesSet(wsamples<T>(p, dim)); } if (!zero) cur = normalised(p); break; }
      case 2: { what = "probabilities"; DV w(n); for (auto& x : w) x = zero ? 0.0 : s.real(0.1, 2); std::vector<Probability> v = pv(w); { Sut sut; ok = d.ProbabilitiesSet(v); } if (!zero) dm = dnorm(w); break; } default: { what = "component weights"; std::vector<Probability> w; double t2 = 0; for (int i = 0; i < n; i++) { w.push_back(zero ? 0.0 : s.real(0.1, 2)); t2 += (double)w[i]; } std::vector<Probability> c = w; { Sut sut; ok = m.WeightsSet(c); } if (!zero) for (int i = 0; i < n; i++) mw[i] = Probability((double)w[i] / t2); } }
    s.ev(what, "zero=%d", zero); if (ok == zero) s.fail(zero ? "zero-accepted" : "edit-refused", "%s returned %d", what, (int)ok);
    Parts g = parts<T>(a); hparts(s, g); valid_parts(s, what, g, n); cmp_parts(s, what, "kept-belief", g, cur, 1e-11); cmp_probs(s, what, "kept-belief", probs(d), dm, 1e-11); std::vector<Probability> gw = m.WeightsGet(); for (int i = 0; i < n; i++) if (!close((double)gw[i], (double)mw[i], 1e-11)) s.fail("kept-belief", "%s: component weight %g, expected %g", what, (double)gw[i], (double)mw[i]);
    Sample<T> y(dim); Sample<int> yi; { Sut sut; a.SampleFrom(y); d.SampleFrom(yi); m.SampleFrom(y); } if (yi.ValueGet() < 0 || yi.ValueGet() >= n) s.fail("sampler", "%s: sampler gives state %d", what, yi.ValueGet()); }
}
}
SCENARIO(C10, 2) { switch (s.draw(9)) { case 0: run<ColumnVector, ColumnVector>(s, false); break; case 1: run<unsigned, double>(s, false); break; case 2: run<double, double>(s, false); break; case 3: run<ColumnVector, ColumnVector>(s, true); break; case 4: run<double, double>(s, true); break; case 5: hist<int>(s); break; case 6: hist<double>(s); break; case 7: edits<ColumnVector>(s); break; default: edits<unsigned>(s); } }
