#include "pmodels.h"
#include "world.h"
#include <pdf/mixture.h>
#include <filter/mixtureBootstrapFilter.h>
#include <filter/mixtureParticleFilter.h>
using namespace W;
namespace {
struct Maint { int calls; std::vector<int> at; Maint() : calls(0) {} };
template <class SV, class MV> struct MBF : public MixtureBootstrapFilter<SV, MV> { Maint* mt;
  MBF(Mixture<SV>* p, int per, double thr, int mp, Maint* m) : MixtureBootstrapFilter<SV, MV>(p, per, thr, DEFAULT_RS, mp), mt(m) {}
  virtual bool MaintainMixture() { mt->calls++; return true; } };
template <class SV, class MV> struct MPF : public MixtureParticleFilter<SV, MV> { Maint* mt;
  MPF(Mixture<SV>* p, ConditionalPdf<SV, SV>* q, int per, double thr, int mp, Maint* m) : MixtureParticleFilter<SV, MV>(p, q, per, thr, DEFAULT_RS, mp), mt(m) {}
  virtual bool MaintainMixture() { mt->calls++; return true; } };
struct Bel { std::vector<double> w; std::vector<Parts> c; };
template <class SV> Bel bel(Mixture<SV>* m) { Bel b; std::vector<Probability> w = m->WeightsGet(); for (unsigned i = 0; i < m->NumComponentsGet(); i++) { b.w.push_back((double)w[i]); b.c.push_back(parts<SV>(*dynamic_cast<MCPdf<SV>*>(m->ComponentGet(i)))); } return b; }
void mean_check(Sim& s, Mixture<ColumnVector>* m, const Bel& b) { size_t d = b.c[0][0].x.size(); ref::V mu(d, 0); for (size_t c = 0; c < b.c.size(); c++) for (auto& p : b.c[c]) for (size_t i = 0; i < d; i++) mu[i] += (ref::R)b.w[c] * p.w * p.x[i]; ref::V g; { Sut sut; g = rv(m->ExpectedValueGet()); } for (size_t i = 0; i < d; i++) if (!close((double)g[i], (double)mu[i], 1e-9 * (10 + std::fabs((double)mu[i])))) s.fail("mean", "mixture mean %s, expected %s", str(g).c_str(), str(mu).c_str()); }
void mean_check(Sim&, Mixture<double>*, const Bel&) {}
template <class SV, class MV> void mix_run(Sim& s) {
  int dim = std::is_same<SV, ColumnVector>::value ? s.range(1, 3) : 1, nc = s.chance(100) ? 1 : s.range(2, 4); bool generic = s.chance(300), in = s.draw(2);
  Env env(s.seed64()); int nsys = 1 + s.draw(2), nsens = s.range(1, 2);
  std::vector<std::unique_ptr<TransPdf<SV> > > sp; std::vector<std::unique_ptr<SystemModel<SV> > > sm;
  for (int i = 0; i < nsys; i++) { sp.emplace_back(new TransPdf<SV>(mktrans(s, true, dim), in, &env)); sp[i]->id = i + 1; sm.emplace_back(new SystemModel<SV>(sp[i].get())); }
  std::unique_ptr<TransPdf<SV> > props[2]; for (auto& q : props) { q.reset(new TransPdf<SV>(mktrans(s, true, dim), in, &env)); q->id = &q - props + 101; q->t.box = generic && s.chance(200); if (q->t.box) s.probe("unit_density_proposal"); } ConditionalPdf<SV, SV>* pp = props[0].get(); const Trans* prop = &props[0]->t; int pid = 101; std::vector<std::unique_ptr<LikPdf<MV, SV> > > lp; std::vector<std::unique_ptr<MeasurementModel<MV, SV> > > mm;
  for (int i = 0; i < nsens; i++) { lp.emplace_back(new LikPdf<MV, SV>(mklik(s, true), s.chance(350), &env)); mm.emplace_back(new MeasurementModel<MV, SV>(lp[i].get())); }
  int period = 0; double thr = 0; if (s.draw(2)) period = s.range(1, 4); else thr = s.real(0.5, 20); int mper = s.range(1, 4); Maint mt;
  std::vector<Parts> init(nc); std::vector<double> w0v(nc); double t0 = 0;
  for (int c = 0; c < nc; c++) { int N = s.chance(60) ? 1 : s.range(2, 18); double off = s.sym(4); for (int i = 0; i < N; i++) { P p; p.x = rkey<SV>(s, dim, 2); for (auto& v : p.x) v += off; p.w = s.chance(60) ? 0 : s.real(0.05, 1); init[c].push_back(p); } init[c][0].w += 0.1; w0v[c] = s.chance(100) ? 0 : s.real(0.05, 1); t0 += w0v[c]; }
  if (t0 <= 0) { w0v[0] = 1; t0 = 1; } for (auto& w : w0v) w /= t0;
  WordStream words(s.seed64()); if (s.config >= 1 && s.chance(300)) { words.mode = 1; words.inj = 100 + s.draw(500); } UseStream us(words);
  std::unique_ptr<Mixture<SV> > pr; std::unique_ptr<MixtureParticleFilter<SV, MV> > flt;
  auto build = [&](const Bel& b) { bool again = flt && s.draw(3) == 0; if (!again) flt.reset(); std::vector<std::unique_ptr<MCPdf<SV> > > cs; std::vector<Pdf<SV>*> raw; for (auto& p : b.c) { cs.emplace_back(new MCPdf<SV>(p.size(), dim)); cs.back()->ListOfSamplesSet(wsamples<SV>(p, dim)); raw.push_back(cs.back().get()); }
    Sut sut; std::unique_ptr<Mixture<SV> > np(new Mixture<SV>(raw)); std::vector<Probability> w; for (double x : b.w) w.push_back(Probability(x)); np->WeightsSet(w); if (again) { flt->Reset(np.get()); s.probe("reset"); } pr = std::move(np); if (again) return;
    if (generic) flt.reset(new MPF<SV, MV>(pr.get(), pp, period, thr, mper, &mt)); else flt.reset(new MBF<SV, MV>(pr.get(), period, thr, mper, &mt)); };
  Bel b0; b0.w = w0v; b0.c = init; build(b0); auto cur = [&]() { return bel<SV>(flt->PostGet()); };
  { Bel g = cur(); for (int c = 0; c < nc; c++) { cmp_parts(s, "initial belief", "initial", g.c[c], normalised(init[c])); if (!close(g.w[c], w0v[c], 1e-12)) s.fail("initial-component-weight", "component %d has weight %g, expected %g", c, g.w[c], w0v[c]); } }
  Link link(s); int ticks = s.range(1, 14); unsigned pcrash = s.config >= 1 && s.draw(2) ? 40 : 0, pq = s.draw(2) ? 300 : 0; enum { PREDICT, MEAS, BOTH }; struct Z { double z; Key sp; int k; }; std::vector<Z> zs; std::vector<Key> us_;
  for (int t = 0; t < ticks; t++) { us_.push_back(in ? rkey<SV>(s, dim, 1) : Key()); int si = s.draw(nsys); bool merged = false;
    for (int k = 0; k < nsens; k++) if (s.chance(600)) { Z z; z.k = k; z.z = s.sym(4); z.sp = lp[k]->sp ? rkey<SV>(s, dim, 1) : Key(); zs.push_back(z); if (!merged && s.chance(generic ? 900 : 350)) { merged = true; link.send(t, BOTH, t * 4 + si, zs.size() - 1); } else link.send(t + 0.1 * (k + 1), MEAS, k, zs.size() - 1); }
    if (!merged) link.send(t, PREDICT, t * 4 + si, 0); }
  int preds = 0; Bel stored; bool has = false; Msg m; unsigned ptune = s.draw(3) == 0 ? 150 : 0;
  auto retrans = [&](Trans& t) { Trans n = mktrans(s, true, dim); n.box = t.box; switch (s.draw(4)) { case 0: t = n; break; case 1: t.b = n.b; break; case 2: t.sd = n.sd; break; default: t.g = n.g; t.a = n.a; } };
  while (link.next(m)) {
    if (ptune && s.chance(ptune)) { s.fault("model_retuned"); int q = s.draw(3); s.ev("retune", "%d", q); if (q == 0) retrans(sp[s.draw(nsys)]->t); else if (q == 1) { Lik n = mklik(s, true); Lik& l = lp[s.draw(nsens)]->l; if (s.draw(2)) l = n; else l.h = n.h; } else { int j = s.draw(3); if (generic && j == 2 && s.draw(2)) { pp = sp[0].get(); prop = &sp[0]->t; pid = 1; Sut sut; flt->ProposalSet(pp); s.probe("proposal_is_system"); } else if (generic && j) { int k = s.draw(2); pp = props[k].get(); prop = &props[k]->t; pid = 101 + k; s.probe("proposal_swapped"); Sut sut; flt->ProposalSet(pp); if (flt->ProposalGet() != pp) s.fail("proposal", "ProposalGet does not return the proposal set"); } else retrans(props[s.draw(2)]->t); } }
    if (pcrash && has && s.chance(pcrash)) { s.fault("crash_restart"); s.ev("crash"); build(stored); preds = 0; }
    Bel before = cur(); bool pr_ = m.kind != MEAS, me = m.kind != PREDICT; int si = m.id % 4; const Z* z = me ? &zs[m.ref] : 0; const Key* u = pr_ ? &us_[m.id / 4] : 0;
    SystemModel<SV>* S = pr_ ? sm[si].get() : 0; MeasurementModel<MV, SV>* Mm = me ? mm[z->k].get() : 0; SV U = TT<SV>::mk(u && in ? *u : Key(dim, 0.0)); bool par = z && z->sp.size(); SV SPv = TT<SV>::mk(par ? z->sp : Key(dim, 0.0)); MV Zv = TT<MV>::mk(Key(1, z ? z->z : 0.0));
    env.log.clear(); mt.calls = 0; bool ok; const char* what = pr_ ? (me ? "combined update" : "prediction") : "measurement update";
    { Sut sut; if (pr_ && me) { if (in && par) ok = flt->Update(S, U, Mm, Zv, SPv); else if (in) ok = flt->Update(S, U, Mm, Zv); else if (par) ok = flt->Update(S, Mm, Zv, SPv); else ok = flt->Update(S, Mm, Zv); } else if (pr_) ok = in ? flt->Update(S, U) : flt->Update(S); else ok = par ? flt->Update(Mm, Zv, SPv) : flt->Update(Mm, Zv); }
    s.ev(what, "t=%.2f id=%d z=%.5g", m.at, m.id, z ? z->z : 0.0);
    Bel after = cur(); for (auto& p : after.c) hparts(s, p); for (double w : after.w) s.h(w);
    if (after.c.size() != before.c.size()) s.fail("component-count", "%s: %zu components, expected %zu", what, after.c.size(), before.c.size());
    bool due = pr_ && period && preds > 0 && preds % period == 0; if (pr_) preds++;
    // maintenance: never when not due, always in an update whose prediction makes it due
    bool mdue = preds > 0 && preds % mper == 0; if (ok) { if (!mdue && mt.calls) s.fail("maintenance-early", "%s: maintenance ran after %d predictions, period %d", what, preds, mper); if (mdue && pr_ && !mt.calls) s.fail("maintenance-missed", "%s: maintenance did not run after %d predictions, period %d", what, preds, mper); if (mdue) s.probe("maintenance_due"); }
    std::map<Key, Key> parent; for (auto& d : env.log) { if (pr_ && d.by != (generic ? pid : sp[si]->id)) s.fail("wrong-density", "%s: a particle was drawn from density %d instead of %d", what, d.by, generic ? pid : sp[si]->id); if (d.u != (in && u ? *u : Key())) s.fail("input", "%s: wrong input %s", what, str(d.u).c_str()); parent[d.child] = d.parent; }
    size_t total = 0; for (auto& c : before.c) total += c.size(); if (pr_ && env.log.size() != total) s.fail("draw-count", "%s: %zu draws for %zu particles", what, env.log.size(), total);
    if (!pr_ && env.log.size()) s.fail("draw-count", "measurement update drew from the proposal");
    // predicted particles: reconstruct per component. Without a dynamic resampling the values after the update are the predicted ones.
    std::vector<Parts> mid(nc); std::vector<bool> known(nc, true);
    for (int c = 0; c < nc; c++) {
      if (!pr_) { mid[c] = before.c[c]; continue; }
      std::map<Key, std::vector<double> > pool; for (auto& p : before.c[c]) pool[p.x].push_back(p.w); bool amb = false; for (auto& kv : pool) for (double w : kv.second) if (w != kv.second[0]) amb = true;
      // draws are attributed to components by their parents; components may share values only when ambiguous
      std::set<Key> pos; for (auto& p : before.c[c]) if (p.w > 0) pos.insert(p.x);
      size_t n = 0; for (auto& d : env.log) if (due ? pos.count(d.parent) : pool.count(d.parent)) { P q; q.x = d.child; q.w = due ? 1.0 / before.c[c].size() : pool[d.parent][0]; mid[c].push_back(q); n++; }
      bool shared = false; for (int e = 0; e < nc; e++) if (e != c) for (auto& p : before.c[e]) if (pool.count(p.x)) shared = true;
      if (amb || shared) { known[c] = false; continue; }
      if (n != before.c[c].size()) s.fail(due ? "resampled-from-nowhere" : "moved", "%s: component %d: %zu of its %zu particles were moved from its own particles", what, c, n, before.c[c].size());
      if (!due) { Parts back; for (auto& q : mid[c]) { P b; b.x = parent[q.x]; b.w = q.w; back.push_back(b); } cmp_parts(s, what, "carried", back, before.c[c]); }
      if (due) s.probe("static_resample");
    }
    if (!me) { if (!ok) s.fail("update-refused", "prediction returned false"); for (int c = 0; c < nc; c++) { if (known[c]) cmp_parts(s, what, due ? "resampled" : "moved", after.c[c], mid[c]); if (!close(after.w[c], before.w[c], 1e-11)) s.fail("component-weight", "%s changed the weight of component %d from %.12g to %.12g", what, c, before.w[c], after.w[c]); } }
    else {
      std::vector<long double> nw(nc); std::vector<bool> hit(nc); long double tot = 0; bool all = true; std::vector<Parts> want(nc);
      for (int c = 0; c < nc; c++) { if (!known[c]) { all = false; continue; } long double a = 0; for (auto& p : mid[c]) { long double f = lp[z->k]->l.p(z->z, p.x, z->sp); if (pr_ && generic) f *= (long double)sp[si]->t.dens(p.x, parent[p.x], *u) / prop->dens(p.x, parent[p.x], *u); P q; q.x = p.x; q.w = (double)(p.w * f); a += q.w; want[c].push_back(q); } nw[c] = before.w[c] * a; tot += nw[c]; hit[c] = a > 1e-250L; if (a > 0) want[c] = normalised(want[c]); else { want[c] = mid[c]; s.probe("component_impossible"); } }
      if (!all) { s.probe("ambiguous_skip"); if (!ok) return; continue; }
      if (!(tot > 0)) { if (ok) s.fail("impossible-accepted", "%s accepted a measurement impossible under every component", what); s.probe("impossible_stop"); return; }
      if (!(tot > 1e-250)) return;
      if (!ok) s.fail("update-refused", "%s returned false although the measurement is possible", what);
      for (int c = 0; c < nc; c++) { double w = (double)(nw[c] / tot); if (!close(after.w[c], w, 1e-10)) s.fail("component-weight", "%s: component %d has weight %.12g, expected %.12g", what, c, after.w[c], w);
        if (w <= 0 && !hit[c]) { valid_parts(s, what, after.c[c], before.c[c].size()); continue; }
        double e = ess(want[c]); size_t N = want[c].size();
        if (period == 0 && std::fabs(e - thr) < 1e-9 * (thr + N)) continue;
        if (period == 0 && e < thr) { s.probe("dynamic_resample"); std::set<Key> pos; for (auto& p : want[c]) if (p.w > 0) pos.insert(p.x); for (auto& p : after.c[c]) { if (!pos.count(p.x)) s.fail("resampled-from-nowhere", "%s: component %d: resampled particle %s had no weight", what, c, str(p.x).c_str()); if (!close(p.w, 1.0 / N, 1e-12)) s.fail("resampled-weight", "%s: component %d weight %.12g after resampling %zu particles", what, c, p.w, N); } }
        else cmp_parts(s, what, "reweighted", after.c[c], want[c], 1e-10); }
    }
    for (int c = 0; c < nc; c++) valid_parts(s, what, after.c[c], before.c[c].size());
    double sw = 0; for (double w : after.w) { if (!(w >= 0)) s.fail("component-weight", "%s: negative component weight", what); sw += w; } if (std::fabs(sw - 1) > 1e-9) s.fail("component-weight-sum", "%s: component weights sum to %.12g", what, sw);
    if (s.chance(250)) mean_check(s, flt->PostGet(), after);
    if (pq && s.chance(pq)) { s.ev("query"); { Sut sut; Mixture<SV>* post = flt->PostGet(); int q = s.draw(3); if (q == 0) { Sample<SV> x(dim); post->SampleFrom(x); } else if (q == 1) { std::vector<Sample<SV> > l; post->SampleFrom(l, s.range(0, 5), s.draw(2) ? SampleMthd::RIPLEY : SampleMthd::DEFAULT, NULL); } else { std::unique_ptr<Mixture<SV> > c(post->Clone()); } }
      Bel g = cur(); for (int c = 0; c < nc; c++) { cmp_parts(s, "after query", "query", g.c[c], after.c[c], 0); if (g.w[c] != after.w[c]) s.fail("query", "a query changed a component weight"); } }
    if (pcrash && s.chance(200)) { stored = after; has = true; s.ev("checkpoint"); }
  }
}
}
SCENARIO(C08, 2) { switch (s.draw(3)) { case 0: mix_run<double, double>(s); break; case 1: mix_run<ColumnVector, double>(s); break; default: mix_run<ColumnVector, ColumnVector>(s); } }
