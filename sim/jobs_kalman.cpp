#include "jobs.h"
#include "imodel.h"
#include <filter/SRiteratedextendedkalmanfilter.h>
#include <filter/extendedkalmanfilter.h>
#include <filter/iteratedextendedkalmanfilter.h>
#include <filter/EKparticlefilter.h>
#include <filter/innovationCheck.h>
#include <smoother/rauchtungstriebel.h>
#include <smoother/particlesmoother.h>
using namespace W;
namespace {
struct KModels { int n, nu; std::vector<SysM> sys; std::vector<MeasM> sens;
  KModels(Sim& p, bool lin, int maxn, int nsens, int nsys, bool samenu) { n = p.range(1, maxn); nu = p.draw(2) ? (samenu ? n : p.range(1, 3)) : 0; sys.resize(nsys); for (auto& m : sys) mksys(m, mkfun(p, n, n, nu, lin, 0.05, 1, true)); sens.resize(nsens); for (auto& m : sens) mkmeas(m, mkfun(p, n, p.range(1, 3), p.chance(300) ? (samenu ? n : p.range(1, 2)) : 0, lin, 0.1, 1, false)); }
  void remodel() { for (auto& m : sys) W::remodel(m); for (auto& m : sens) W::remodel(m); }
  void fingerprint(Out& o) { for (auto& m : sys) if (m.noise) { o.a(rv(m.noise->ExpectedValueGet())); o.a(rm(m.noise->CovarianceGet())); LinearAnalyticConditionalGaussian* l = (LinearAnalyticConditionalGaussian*)m.pdf.get(); for (unsigned k = 0; k < l->NumConditionalArgumentsGet(); k++) o.a(rm(l->MatrixGet(k))); o.a(rm(l->AdditiveNoiseSigmaGet())); } for (auto& m : sens) if (m.noise) { o.a(rv(m.noise->ExpectedValueGet())); o.a(rm(m.noise->CovarianceGet())); LinearAnalyticConditionalGaussian* l = (LinearAnalyticConditionalGaussian*)m.pdf.get(); for (unsigned k = 0; k < l->NumConditionalArgumentsGet(); k++) o.a(rm(l->MatrixGet(k))); } }
};
void junk(Gaussian& g) { int n = g.DimensionGet(); ref::V m(n, 1e6L); ref::M P = ref::eye(n); for (auto& x : P.a) x *= 1e-3L; g.ExpectedValueSet(cv(m)); g.CovarianceSet(csym(P)); }
template <class T> void junk(MCPdf<T>& m, int dim) { Parts ps; for (unsigned i = 0; i < m.NumSamplesGet(); i++) { P q; q.x = Key(dim, 7.0); q.w = 1; ps.push_back(q); } m.ListOfSamplesSet(wsamples<T>(ps, dim)); }
ref::Belief rbel(Sim p, int n) { ref::Belief b; b.m = rvec(p, n, 4); b.P = rspd(p, n, 0.2, 6, p.draw(2)); return b; }
struct KalmanJob : Job {
  std::unique_ptr<KModels> km; std::vector<std::unique_ptr<Imp> > imp; int kind, iters; InnovationCheck ic; std::unique_ptr<Gaussian> prior; std::unique_ptr<KalmanFilter> flt; std::vector<ColumnVector> args;
  KalmanJob(uint64_t s) : Job(s), ic(1e-4) { Sim p = par(s, 0); name = "kalman filter"; deterministic = true; kind = p.draw(4); iters = p.range(1, 3); km.reset(new KModels(p, p.draw(2), 4, p.range(1, 3), 1 + p.draw(2), false)); mkimp(); if (kind == 3) name = "square-root filter"; }
  void mkimp() { imp.clear(); if (kind == 3) for (size_t i = 0; i < km->sens.size(); i++) { Sim p = par(seed, 700 + i); bool id = p.draw(3) == 0; imp.emplace_back(new Imp(imodel(p, km->n, p.draw(2), id), id)); } }
  void mkprior(int b) { ref::Belief x = rbel(par(seed, 1000 + b), km->n); prior.reset(new Gaussian(cv(x.m), csym(x.P))); }
  void build(int b) { UseStream us(words); mkprior(b); Sut sut; if (kind == 0) flt.reset(new ExtendedKalmanFilter(prior.get())); else if (kind == 3) flt.reset(new SRIteratedExtendedKalmanFilter(prior.get(), iters)); else flt.reset(new IteratedExtendedKalmanFilter(prior.get(), iters, kind == 2 ? &ic : NULL)); }
  void rebelief(int b) { UseStream us(words); std::unique_ptr<Gaussian> old = std::move(prior); mkprior(b); { Sut sut; flt->Reset(prior.get()); } }
  void drop() { Sut sut; flt.reset(); }
  bool mangle() { if (!prior) return false; junk(*prior); return true; } bool freeprior() { prior.reset(); return true; } void freecallers() { prior.reset(); km.reset(); imp.clear(); } bool remodel() { km->remodel(); mkimp(); return true; } bool selfreset() { Sut sut; flt->Reset(flt->PostGet()); return true; } void belief(Out& o) { o.a(rv(flt->PostGet()->ExpectedValueGet())); o.a(rm(flt->PostGet()->CovarianceGet())); }
  void observe(Out& o) { o.a(rv(flt->PostGet()->ExpectedValueGet())); o.a(rm(flt->PostGet()->CovarianceGet())); o.a(flt->TimeStepGet()); }
  void callers(Out& o) { if (prior) o.a(rv(prior->ExpectedValueGet())); if (prior) o.a(rm(prior->CovarianceGet())); km->fingerprint(o); for (auto& a : args) o.a(rv(a)); }
  void step(int i, Out& o) { UseStream us(words); Sim p = par(seed, i + 1); int op = p.draw(8); SysM& S = km->sys[p.draw(km->sys.size())]; int mi = p.draw(km->sens.size()); MeasM& M = km->sens[mi]; const Fun& f = kind == 3 ? imp[mi]->f : M.f; MeasurementModel<ColumnVector, ColumnVector>* mm = M.model.get(); if (kind == 3) mm = imp[mi].get(); args.clear(); args.push_back(cv(rvec(p, km->nu, 1))); args.push_back(cv(rvec(p, f.m, 3))); args.push_back(cv(rvec(p, f.nu, 1))); bool ok = true; bool in = km->nu, sp = f.nu;
    look(); { Sut sut; switch (op) { case 0: case 1: ok = in ? flt->Update(S.model.get(), args[0]) : flt->Update(S.model.get()); break; case 2: case 3: ok = sp ? flt->Update(mm, args[1], args[2]) : flt->Update(mm, args[1]); break;
      case 4: case 5: ok = in && sp ? flt->Update(S.model.get(), args[0], mm, args[1], args[2]) : in ? flt->Update(S.model.get(), args[0], mm, args[1]) : sp ? flt->Update(S.model.get(), mm, args[1], args[2]) : flt->Update(S.model.get(), mm, args[1]); break;
      case 6: if (kind == 0 && !sp) { double v = ((ExtendedKalmanFilter*)flt.get())->NisGet(mm, args[1]); o.a(v); } else if (kind == 3) (void)((SRIteratedExtendedKalmanFilter*)flt.get())->SRCovarianceGet(); else flt->AllocateMeasModel((unsigned)p.range(1, 5)); break;
      default: { double v = flt->PostGet()->ProbabilityGet(cv(rvec(p, km->n, 2))); o.a(v); } } }
    o.a(ok); observe(o); }
};
struct RtsJob : Job {
  std::unique_ptr<KModels> km; std::vector<std::unique_ptr<Gaussian> > post; std::vector<ref::V> us_; std::unique_ptr<Gaussian> last; std::unique_ptr<RauchTungStriebel> sm; ColumnVector u;
  RtsJob(uint64_t s) : Job(s) { Sim p = par(s, 0); name = "Rauch-Tung-Striebel smoother"; deterministic = true; km.reset(new KModels(p, p.draw(3) != 0, 4, 1, 1, false)); for (int i = 0; i < 6; i++) { ref::Belief b = rbel(par(s, 500 + i), km->n); post.emplace_back(new Gaussian(cv(b.m), csym(b.P))); } }
  void mk(int b) { ref::Belief x = rbel(par(seed, 1000 + b), km->n); last.reset(new Gaussian(cv(x.m), csym(x.P))); }
  void build(int b) { mk(b); Sut sut; sm.reset(new RauchTungStriebel(last.get())); }
  void rebelief(int b) { std::unique_ptr<Gaussian> old = std::move(last); mk(b); Sut sut; sm->Reset(last.get()); }
  void drop() { Sut sut; sm.reset(); }
  bool mangle() { if (!last) return false; junk(*last); return true; } bool freeprior() { last.reset(); return true; } void freecallers() { last.reset(); km.reset(); post.clear(); } bool remodel() { km->remodel(); return true; } bool selfreset() { Sut sut; sm->Reset(sm->PostGet()); return true; } void belief(Out& o) { o.a(rv(sm->PostGet()->ExpectedValueGet())); o.a(rm(sm->PostGet()->CovarianceGet())); }
  void observe(Out& o) { o.a(rv(sm->PostGet()->ExpectedValueGet())); o.a(rm(sm->PostGet()->CovarianceGet())); o.a(sm->TimeStepGet()); }
  void callers(Out& o) { o.a(rv(u)); if (last) { o.a(rv(last->ExpectedValueGet())); o.a(rm(last->CovarianceGet())); } for (auto& g : post) { o.a(rv(g->ExpectedValueGet())); o.a(rm(g->CovarianceGet())); } km->fingerprint(o); }
  void step(int i, Out& o) { UseStream us(words); Sim p = par(seed, i + 1); Gaussian* g = post[p.draw(post.size())].get(); u = cv(rvec(p, km->nu, 1)); bool ok; look(); { Sut sut; ok = km->nu ? sm->Update(km->sys[0].model.get(), u, g) : sm->Update(km->sys[0].model.get(), g); } o.a(ok); observe(o); }
};
template <class T> struct PsJob : Job {
  int dim; bool in; Trans t; std::unique_ptr<TransPdf<T> > tp; std::unique_ptr<SystemModel<T> > S; std::vector<std::unique_ptr<MCPdf<T> > > post; std::unique_ptr<MCPdf<T> > last; std::unique_ptr<ParticleSmoother<T> > sm; T u;
  MCPdf<T>* rnd(Sim p) { int n = p.range(1, 8); Parts ps; for (int i = 0; i < n; i++) { P q; q.x = rkey<T>(p, dim, 3); q.w = p.chance(100) ? 0 : p.real(0.05, 1); ps.push_back(q); } ps[0].w = 0.5; MCPdf<T>* m = new MCPdf<T>(n, dim); m->ListOfSamplesSet(wsamples<T>(ps, dim)); return m; }
  PsJob(uint64_t s) : Job(s) { Sim p = par(s, 0); name = "particle smoother"; deterministic = true; dim = std::is_same<T, ColumnVector>::value ? p.range(1, 3) : 1; u = TT<T>::mk(Key(dim, 0.0)); in = p.draw(2); tp.reset(new TransPdf<T>(mktrans(p, TT<T>::cont, dim), in, &env)); S.reset(new SystemModel<T>(tp.get())); for (int i = 0; i < 5; i++) post.emplace_back(rnd(par(s, 500 + i))); }
  void build(int b) { last.reset(rnd(par(seed, 1000 + b))); Sut sut; sm.reset(new ParticleSmoother<T>(last.get())); }
  void rebelief(int b) { std::unique_ptr<MCPdf<T> > old = std::move(last); last.reset(rnd(par(seed, 1000 + b))); Sut sut; sm->Reset(last.get()); }
  void drop() { Sut sut; sm.reset(); }
  bool mangle() { if (!last) return false; junk<T>(*last, dim); return true; } bool freeprior() { last.reset(); return true; } void freecallers() { last.reset(); S.reset(); tp.reset(); post.clear(); } bool remodel() { S.reset(); S.reset(new SystemModel<T>(tp.get())); return true; } bool selfreset() { Sut sut; sm->Reset(sm->PostGet()); return true; } void belief(Out& o) { o.a(parts<T>(*(MCPdf<T>*)sm->PostGet())); }
  void observe(Out& o) { o.a(parts<T>(*(MCPdf<T>*)sm->PostGet())); o.a(sm->TimeStepGet()); }
  void callers(Out& o) { o.a(TT<T>::key(u)); if (last) o.a(parts<T>(*last)); for (auto& g : post) o.a(parts<T>(*g)); }
  void step(int i, Out& o) { UseStream us(words); Sim p = par(seed, i + 1); MCPdf<T>* g = post[p.draw(post.size())].get(); u = TT<T>::mk(rkey<T>(p, dim, 1)); bool ok; look(); { Sut sut; ok = in ? sm->Update(S.get(), u, g) : sm->Update(S.get(), g); } o.a(ok); observe(o); }
};
struct EkpfJob : Job {
  std::unique_ptr<KModels> km; int N, period; double thr; std::unique_ptr<MCPdf<ColumnVector> > prior; std::unique_ptr<EKParticleFilter> flt; std::vector<ColumnVector> args;
  EkpfJob(uint64_t s) : Job(s) { Sim p = par(s, 0); name = "EKF particle filter"; km.reset(new KModels(p, p.draw(2), 3, p.range(1, 2), 1, false)); N = p.range(1, 8); period = 0; thr = 0; if (p.draw(2)) period = p.range(1, 3); else thr = p.real(0.3, 1) * N; }
  void mk(int b) { Sim p = par(seed, 1000 + b); int N = this->N + b % 3; Parts ps; for (int i = 0; i < N; i++) { P q; q.x = rkey<ColumnVector>(p, km->n, 3); q.w = p.real(0.05, 1); ps.push_back(q); } prior.reset(new MCPdf<ColumnVector>(N, km->n)); prior->ListOfSamplesSet(wsamples<ColumnVector>(ps, km->n)); }
  void build(int b) { UseStream us(words); mk(b); Sut sut; flt.reset(new EKParticleFilter(prior.get(), period, thr)); }
  void rebelief(int b) { UseStream us(words); std::unique_ptr<MCPdf<ColumnVector> > old = std::move(prior); mk(b); Sut sut; flt->Reset(prior.get()); }
  void drop() { Sut sut; flt.reset(); }
  bool mangle() { if (!prior) return false; junk<ColumnVector>(*prior, km->n); return true; } bool freeprior() { prior.reset(); return true; } void freecallers() { prior.reset(); km.reset(); } bool remodel() { km->remodel(); return true; } bool selfreset() { UseStream us(words); Sut sut; flt->Reset(flt->PostGet()); return true; } void belief(Out& o) { o.a(parts<ColumnVector>(*(MCPdf<ColumnVector>*)flt->PostGet())); }
  void observe(Out& o) { o.a(parts<ColumnVector>(*(MCPdf<ColumnVector>*)flt->PostGet())); o.a(flt->TimeStepGet()); }
  void callers(Out& o) { if (prior) o.a(parts<ColumnVector>(*prior)); km->fingerprint(o); for (auto& a : args) o.a(rv(a)); }
  void step(int i, Out& o) { UseStream us(words); Sim p = par(seed, i + 1); SysM& S = km->sys[0]; MeasM& M = km->sens[p.draw(km->sens.size())]; args.clear(); args.push_back(cv(rvec(p, km->nu, 1))); args.push_back(cv(rvec(p, M.f.m, 2))); args.push_back(cv(rvec(p, M.f.nu, 1))); bool in = km->nu, sp = M.f.nu, ok; look(); { Sut sut; ok = in && sp ? flt->Update(S.model.get(), args[0], M.model.get(), args[1], args[2]) : in ? flt->Update(S.model.get(), args[0], M.model.get(), args[1]) : sp ? flt->Update(S.model.get(), M.model.get(), args[1], args[2]) : flt->Update(S.model.get(), M.model.get(), args[1]); } o.a(ok); observe(o); }
};
}
namespace W {
Job* mk_kalman(uint64_t s) { return new KalmanJob(s); }
Job* mk_smooth(uint64_t s) { switch (s % 4) { case 0: return new PsJob<ColumnVector>(s); case 1: return new PsJob<unsigned>(s); default: return new RtsJob(s); } }
Job* mk_ekpf(uint64_t s) { return new EkpfJob(s); }
}
