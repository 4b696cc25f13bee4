#include "jobs.h"
#include "dmodels.h"
#include <pdf/mixture.h>
#include <filter/bootstrapfilter.h>
#include <filter/particlefilter.h>
#include <filter/mixtureBootstrapFilter.h>
#include <filter/mixtureParticleFilter.h>
using namespace W;
namespace {
template <class SV, class MV> struct PModels : Job {
  int dim; bool in, generic; int period; double thr; std::vector<std::unique_ptr<TransPdf<SV> > > tp; std::vector<std::unique_ptr<SystemModel<SV> > > sm; std::unique_ptr<TransPdf<SV> > prop; std::vector<std::unique_ptr<LikPdf<MV, SV> > > lp; std::vector<std::unique_ptr<MeasurementModel<MV, SV> > > mm; std::vector<SV> args; std::vector<MV> zarg;
  PModels(uint64_t s, int N) : Job(s) { Sim p = par(s, 0); const bool C = TT<SV>::cont; dim = std::is_same<SV, ColumnVector>::value ? p.range(1, 3) : 1; in = p.draw(2); generic = p.chance(300); int ns = 1 + p.draw(2), nm = p.range(1, 2); for (int i = 0; i < ns; i++) { tp.emplace_back(new TransPdf<SV>(mktrans(p, C, dim), in, &env)); sm.emplace_back(new SystemModel<SV>(tp[i].get())); } prop.reset(new TransPdf<SV>(mktrans(p, C, dim), in, &env)); if (!C) prop->t.K = tp[0]->t.K; for (int i = 0; i < nm; i++) { Lik l = mklik(p, C); l.floor = 1e-4; lp.emplace_back(new LikPdf<MV, SV>(l, p.chance(300), &env)); mm.emplace_back(new MeasurementModel<MV, SV>(lp[i].get())); } period = 0; thr = 0; if (p.draw(2)) period = p.range(1, 3); else thr = p.real(0.3, 1.05) * N; }
  Parts rp(Sim& p, int N) { Parts ps; for (int i = 0; i < N; i++) { P q; q.x = rkey<SV>(p, dim, 4); q.w = p.chance(80) ? 0 : p.real(0.05, 1); ps.push_back(q); } ps[0].w = 0.7; return ps; }
  virtual Filter<SV, MV>* f() = 0;
  virtual void query(Sim& p, Out& o) = 0;
  void freemodels() { sm.clear(); mm.clear(); tp.clear(); lp.clear(); prop.reset(); }
  bool remodel() { for (size_t i = 0; i < sm.size(); i++) { sm[i].reset(); sm[i].reset(new SystemModel<SV>(tp[i].get())); } for (size_t i = 0; i < mm.size(); i++) { mm[i].reset(); mm[i].reset(new MeasurementModel<MV, SV>(lp[i].get())); } return true; }
  bool quiet(int i) { Sim p = par(seed, i + 1); int op = p.draw(7); return period && (op == 2 || op == 3); }
  void fp(Out& o) { for (auto& a : args) o.a(TT<SV>::key(a)); for (auto& z : zarg) o.a(TT<MV>::key(z)); }
  void step(int i, Out& o) { UseStream us(words); Sim p = par(seed, i + 1); int op = p.draw(7), k = p.draw(mm.size()); env.log.clear(); SystemModel<SV>* S = sm[p.draw(sm.size())].get(); MeasurementModel<MV, SV>* M = mm[k].get(); args.clear(); args.push_back(TT<SV>::mk(rkey<SV>(p, dim, 1))); args.push_back(TT<SV>::mk(rkey<SV>(p, dim, 1))); zarg.assign(1, TT<MV>::mk(TT<MV>::cont ? Key(1, p.sym(4)) : Key(1, (double)p.draw(10)))); const SV &u = args[0], &sp = args[1]; const MV& z = zarg[0]; bool par_ = lp[k]->sp, ok = true;
    this->look(); if (op == 6) query(p, o); else { Sut sut; if (op < 2) ok = in ? f()->Update(S, u) : f()->Update(S); else if (op < 4) ok = par_ ? f()->Update(M, z, sp) : f()->Update(M, z); else ok = in && par_ ? f()->Update(S, u, M, z, sp) : in ? f()->Update(S, u, M, z) : par_ ? f()->Update(S, M, z, sp) : f()->Update(S, M, z); }
    o.a(ok); observe(o); }
};
template <class SV, class MV> struct PfJob : PModels<SV, MV> {
  typedef PModels<SV, MV> B; int N; std::unique_ptr<MCPdf<SV> > prior; std::unique_ptr<ParticleFilter<SV, MV> > flt;
  PfJob(uint64_t s) : B(s, 2 + s % 9), N(2 + s % 9) { this->name = "particle filter"; }
  MCPdf<SV>* mk(int b) { Sim p = par(this->seed, 1000 + b); int N = this->N + b % 3; MCPdf<SV>* m = new MCPdf<SV>(N, this->dim); m->ListOfSamplesSet(wsamples<SV>(this->rp(p, N), this->dim)); return m; }
  void build(int b) { UseStream us(this->words); prior.reset(mk(b)); Sut sut; if (this->generic) flt.reset(new ParticleFilter<SV, MV>(prior.get(), this->prop.get(), this->period, this->thr)); else flt.reset(new BootstrapFilter<SV, MV>(prior.get(), this->period, this->thr)); }
  void rebelief(int b) { UseStream us(this->words); std::unique_ptr<MCPdf<SV> > old = std::move(prior); prior.reset(mk(b)); Sut sut; flt->Reset(prior.get()); }
  void drop() { Sut sut; flt.reset(); } Filter<SV, MV>* f() { return flt.get(); }
  void observe(Out& o) { o.a(parts<SV>(*(MCPdf<SV>*)flt->PostGet())); o.a(flt->TimeStepGet()); for (double c : ((MCPdf<SV>*)flt->PostGet())->CumulativePDFGet()) o.a(c); }
  void callers(Out& o) { if (prior) o.a(parts<SV>(*prior)); this->fp(o); }
  bool mangle() { if (!prior) return false; Parts ps; for (unsigned i = 0; i < prior->NumSamplesGet(); i++) { P q; q.x = Key(this->dim, 7.0); q.w = 1; ps.push_back(q); } prior->ListOfSamplesSet(wsamples<SV>(ps, this->dim)); return true; } bool freeprior() { prior.reset(); return true; } void freecallers() { prior.reset(); this->freemodels(); } bool selfreset() { UseStream us(this->words); Sut sut; flt->Reset(flt->PostGet()); return true; } void belief(Out& o) { o.a(parts<SV>(*(MCPdf<SV>*)flt->PostGet())); }
  void query(Sim& p, Out& o) { MCPdf<SV>* m = (MCPdf<SV>*)flt->PostGet(); Sample<SV> x(this->dim); std::vector<Sample<SV> > l; { Sut sut; if (p.draw(2)) { m->SampleFrom(l, p.range(1, 6), p.draw(2) ? SampleMthd::RIPLEY : SampleMthd::DEFAULT, NULL); } else { m->SampleFrom(x); l.push_back(x); } } for (auto& y : l) o.a(TT<SV>::key(y.ValueGet())); }
};
template <class SV, class MV> struct MpfJob : PModels<SV, MV> {
  typedef PModels<SV, MV> B; int nc; std::unique_ptr<Mixture<SV> > prior; std::unique_ptr<MixtureParticleFilter<SV, MV> > flt;
  MpfJob(uint64_t s) : B(s, 6), nc(1 + s % 4) { this->name = "mixture particle filter"; }
  Mixture<SV>* mk(int b) { Sim p = par(this->seed, 1000 + b); int nc = this->nc + b % 2; std::vector<std::unique_ptr<MCPdf<SV> > > cs; std::vector<Pdf<SV>*> raw; for (int c = 0; c < nc; c++) { int N = 1 + (this->seed >> (3 * c + 4)) % 7 + b % 3; cs.emplace_back(new MCPdf<SV>(N, this->dim)); cs.back()->ListOfSamplesSet(wsamples<SV>(this->rp(p, N), this->dim)); raw.push_back(cs.back().get()); } Mixture<SV>* m = new Mixture<SV>(raw); std::vector<Probability> w; for (int c = 0; c < nc; c++) w.push_back(p.real(0.1, 1)); m->WeightsSet(w); return m; }
  void build(int b) { UseStream us(this->words); prior.reset(mk(b)); Sut sut; if (this->generic) flt.reset(new MixtureParticleFilter<SV, MV>(prior.get(), this->prop.get(), this->period, this->thr)); else flt.reset(new MixtureBootstrapFilter<SV, MV>(prior.get(), this->period, this->thr)); }
  void rebelief(int b) { UseStream us(this->words); std::unique_ptr<Mixture<SV> > old = std::move(prior); prior.reset(mk(b)); Sut sut; flt->Reset(prior.get()); }
  void drop() { Sut sut; flt.reset(); } Filter<SV, MV>* f() { return flt.get(); }
  static void dump(Mixture<SV>* m, Out& o) { o.a(m->WeightsGet()); for (unsigned i = 0; i < m->NumComponentsGet(); i++) o.a(parts<SV>(*dynamic_cast<MCPdf<SV>*>(m->ComponentGet(i)))); }
  void observe(Out& o) { dump(flt->PostGet(), o); o.a(flt->TimeStepGet()); }
  void callers(Out& o) { if (prior) dump(prior.get(), o); this->fp(o); }
  bool mangle() { if (!prior) return false; for (unsigned i = 0; i < prior->NumComponentsGet(); i++) { MCPdf<SV>* m = dynamic_cast<MCPdf<SV>*>(prior->ComponentGet(i)); Parts ps; for (unsigned k = 0; k < m->NumSamplesGet(); k++) { P q; q.x = Key(this->dim, 7.0); q.w = 1; ps.push_back(q); } m->ListOfSamplesSet(wsamples<SV>(ps, this->dim)); } std::vector<Probability> w(prior->NumComponentsGet(), 1e-6); w[0] = 1; prior->WeightsSet(w); return true; } bool freeprior() { prior.reset(); return true; } void freecallers() { prior.reset(); this->freemodels(); } bool selfreset() { UseStream us(this->words); Sut sut; flt->Reset(flt->PostGet()); return true; } void belief(Out& o) { dump(flt->PostGet(), o); }
  void query(Sim& p, Out& o) { Mixture<SV>* m = flt->PostGet(); Sample<SV> x(this->dim); std::vector<Sample<SV> > l; { Sut sut; if (p.draw(2)) m->SampleFrom(l, p.range(1, 6), p.draw(2) ? SampleMthd::RIPLEY : SampleMthd::DEFAULT, NULL); else { m->SampleFrom(x); l.push_back(x); } } for (auto& y : l) o.a(TT<SV>::key(y.ValueGet())); }
};
template <class MV> struct HistJob : Job {
  int n, nu; Table st; std::unique_ptr<DiscreteConditionalPdf> sp; std::unique_ptr<DiscreteSystemModel> sm; std::vector<std::unique_ptr<LikPdf<MV, int> > > lp; std::vector<std::unique_ptr<MeasurementModel<MV, int> > > mm; std::unique_ptr<DiscretePdf> prior; std::unique_ptr<HistogramFilter<MV> > flt;
  HistJob(uint64_t s) : Job(s) { Sim p = par(s, 0); name = "histogram filter"; deterministic = true; n = p.range(1, 9); nu = p.draw(2) ? p.range(1, 3) : 0; std::vector<int> d(1, n); if (nu) d.push_back(nu); st = rtable(p, n, d, 150); sp.reset(mkcond(st)); sm.reset(new DiscreteSystemModel(sp.get())); for (int i = 0; i < 2; i++) { Lik l = mklik(p, false); l.floor = 1e-4; lp.emplace_back(new LikPdf<MV, int>(l, p.chance(300))); mm.emplace_back(new MeasurementModel<MV, int>(lp[i].get())); } }
  DiscretePdf* mk(int b) { Sim p = par(seed, 1000 + b); DiscretePdf* d = new DiscretePdf(n); std::vector<Probability> v = pv(rdist(p, n, 150)); d->ProbabilitiesSet(v); return d; }
  void build(int b) { prior.reset(mk(b)); Sut sut; flt.reset(new HistogramFilter<MV>(prior.get())); }
  void rebelief(int b) { std::unique_ptr<DiscretePdf> old = std::move(prior); prior.reset(mk(b)); Sut sut; flt->Reset(prior.get()); }
  void drop() { Sut sut; flt.reset(); }
  bool mangle() { if (!prior) return false; std::vector<Probability> v(n, 1e-9); v[n - 1] = 1; prior->ProbabilitiesSet(v); return true; } bool freeprior() { prior.reset(); return true; } void freecallers() { prior.reset(); sm.reset(); mm.clear(); sp.reset(); lp.clear(); } bool remodel() { sm.reset(); sm.reset(new DiscreteSystemModel(sp.get())); for (size_t i = 0; i < mm.size(); i++) { mm[i].reset(); mm[i].reset(new MeasurementModel<MV, int>(lp[i].get())); } return true; } bool selfreset() { Sut sut; flt->Reset(flt->PostGet()); return true; } void belief(Out& o) { o.a(flt->PostGet()->ProbabilitiesGet()); }
  void observe(Out& o) { o.a(flt->PostGet()->ProbabilitiesGet()); o.a(flt->TimeStepGet()); }
  void callers(Out& o) { if (prior) o.a(prior->ProbabilitiesGet()); for (size_t i = 0; i < st.rows.size(); i++) { std::vector<int> a(st.dims.size()); size_t k = i; for (size_t j = 0; j < st.dims.size(); j++) { a[j] = k % st.dims[j]; k /= st.dims[j]; } DiscreteConditionalPdf c(*sp); for (size_t j = 0; j < a.size(); j++) c.ConditionalArgumentSet(j, a[j]); for (int x = 0; x < n; x++) o.a((double)c.ProbabilityGet(x)); } }
  void step(int i, Out& o) { UseStream us(words); Sim p = par(seed, i + 1); int op = p.draw(6), k = p.draw(2), u = nu ? (int)p.draw(nu) : 0, s = p.draw(4); MV z = (MV)p.draw(12); bool pa = lp[k]->sp, ok; look(); { Sut sut; if (op < 2) ok = nu ? flt->Update(sm.get(), u) : flt->Update(sm.get()); else if (op < 4) ok = pa ? flt->Update(mm[k].get(), z, s) : flt->Update(mm[k].get(), z); else ok = nu || pa ? flt->Update(sm.get(), u, mm[k].get(), z, s) : flt->Update(sm.get(), mm[k].get(), z); } o.a(ok); observe(o); }
};
}
namespace W {
Job* mk_particle(uint64_t s) { switch ((s >> 20) % 3) { case 0: return new PfJob<ColumnVector, ColumnVector>(s); case 1: return new PfJob<unsigned, double>(s); default: return new PfJob<double, double>(s); } }
Job* mk_mixture(uint64_t s) { if ((s >> 20) % 2) return new MpfJob<ColumnVector, ColumnVector>(s); return new MpfJob<double, double>(s); }
Job* mk_hist(uint64_t s) { if ((s >> 20) % 2) return new HistJob<int>(s); return new HistJob<double>(s); }
}
