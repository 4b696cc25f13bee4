#include "jobs.h"
#include "dmodels.h"
#include "kmodels.h"
#include <pdf/mixture.h>
#include <pdf/uniform.h>
using namespace W;
namespace {
struct DiscJob : Job { int n; std::unique_ptr<DiscretePdf> d;
  DiscJob(uint64_t s) : Job(s) { n = 1 + s % 9; name = "discrete density"; }
  std::vector<Probability> bel(int b) { Sim p = par(seed, 1000 + b); return pv(rdist(p, n, 150)); }
  void build(int b) { UseStream us(words); std::vector<Probability> v = bel(b); Arg<std::vector<Probability> > ag(*this, v); Sut sut; d.reset(new DiscretePdf(n)); d->ProbabilitiesSet(v); }
  void rebelief(int b) { UseStream us(words); std::vector<Probability> v = bel(b); Arg<std::vector<Probability> > ag(*this, v); Sut sut; d->ProbabilitiesSet(v); }
  Job* fork(int how) { DiscJob* j = new DiscJob(seed); j->words = words; j->env = env;  UseStream us(words); Sut sut; if (how == 0) j->d.reset(d->Clone()); else if (how == 1) j->d.reset(new DiscretePdf(*d)); else { j->d.reset(new DiscretePdf(1)); *j->d = *d; } return j; }
  void drop() { Sut sut; d.reset(); } void observe(Out& o) { o.a(d->ProbabilitiesGet()); o.a(d->MostProbableStateGet()); }
  void step(int i, Out& o) { UseStream us(words); Sim p = par(seed, i + 1); Out tmp; switch (p.draw(6)) { case 0: { int k = p.draw(n); double a = n == 1 ? 1.0 : p.real(0, 1); Sut sut; o.a((double)d->ProbabilitySet(k, Probability(a))); break; } case 1: { std::vector<Probability> v = pv(rdist(p, n, 150)); Arg<std::vector<Probability> > ag(*this, v); Sut sut; o.a((double)d->ProbabilitiesSet(v)); break; } case 2: { Sample<int> x; { Sut sut; d->SampleFrom(x); } o.a(x.ValueGet()); break; } case 3: { std::vector<Sample<int> > l; { Sut sut; d->SampleFrom(l, p.range(1, 9), p.draw(2) ? SampleMthd::RIPLEY : SampleMthd::DEFAULT, NULL); } for (auto& x : l) o.a(x.ValueGet()); break; }
      case 4: { std::unique_ptr<DiscretePdf> c; { Sut sut; c.reset(d->Clone()); } o.a(c->ProbabilitiesGet()); Sut sut; c.reset(); break; } default: { std::unique_ptr<DiscretePdf> c; { Sut sut; c.reset(new DiscretePdf(n)); *c = *d; } o.a(c->ProbabilitiesGet()); Sut sut; *d = *c; } } observe(o); } };
struct MixJob : Job { int dim; std::unique_ptr<Mixture<ColumnVector> > m; std::vector<std::unique_ptr<Pdf<ColumnVector> > > own; std::vector<Pdf<ColumnVector>*> raw;
  MixJob(uint64_t s) : Job(s) { dim = 1 + s % 3; name = "mixture density"; }
  Pdf<ColumnVector>* comp(Sim& p) { ref::V a = rvec(p, dim, 3); if (p.draw(2)) return new Gaussian(cv(a), csym(rspd(p, dim, 0.2, 3, p.draw(2)))); ref::V b = rvec(p, dim, 2); for (auto& x : b) x = std::fabs((double)x) + 0.5; return new Uniform(cv(a), cv(b)); }
  void comps(int b) { Sim p = par(seed, 1000 + b); int n = p.range(1, 4); own.clear(); raw.clear(); for (int i = 0; i < n; i++) { own.emplace_back(comp(p)); raw.push_back(own.back().get()); } }
  void build(int b) { UseStream us(words); comps(b); Sut sut; m.reset(new Mixture<ColumnVector>(raw)); }
  void rebelief(int b) { UseStream us(words); comps(b); Sut sut; Mixture<ColumnVector> f(raw); *m = f; }
  Job* fork(int how) { MixJob* j = new MixJob(seed); j->words = words; j->env = env;  UseStream us(words); Sut sut; if (how == 0) j->m.reset(m->Clone()); else if (how == 1) j->m.reset(new Mixture<ColumnVector>(*m)); else { j->m.reset(new Mixture<ColumnVector>((unsigned)dim)); *j->m = *m; } return j; }
  bool mangle() { if (own.empty()) return false; for (auto& c : own) { if (Gaussian* g = dynamic_cast<Gaussian*>(c.get())) g->ExpectedValueSet(cv(ref::V(dim, 1e5L))); else if (Uniform* u = dynamic_cast<Uniform*>(c.get())) u->UniformSet(cv(ref::V(dim, 1e5L)), cv(ref::V(dim, 1.0L))); } return true; } bool freeprior() { own.clear(); raw.clear(); return true; } void freecallers() { own.clear(); raw.clear(); }
  void drop() { Sut sut; m.reset(); } void observe(Out& o) { o.a(m->NumComponentsGet()); o.a(m->WeightsGet()); if (m->NumComponentsGet() == 0) return; for (int k = 0; k < 2; k++) { Sim p = par(seed, 7000 + k); ColumnVector x = cv(rvec(p, dim, 3)); UseStream us(words); o.a((double)m->ProbabilityGet(x)); } o.a(m->MostProbableComponentGet()); }
  void callers(Out& o) { Sim p = par(seed, 7005); ColumnVector x = cv(rvec(p, dim, 2)); for (auto* c : raw) o.a((double)c->ProbabilityGet(x)); }
  void step(int i, Out& o) { UseStream us(words); Sim p = par(seed, i + 1); int n = m->NumComponentsGet(); switch (p.draw(8)) { case 0: { std::unique_ptr<Pdf<ColumnVector> > c(comp(p)); Arg<Pdf<ColumnVector> > ag(*this, *c); look(); Sut sut; o.a(m->AddComponent(*c)); break; } case 1: { std::unique_ptr<Pdf<ColumnVector> > c(comp(p)); double w = p.real(0.05, 0.95); Arg<Pdf<ColumnVector> > ag(*this, *c); Sut sut; o.a(m->AddComponent(*c, Probability(w))); break; } case 2: { if (n < 2) break; int k = p.draw(n); Sut sut; o.a(m->DeleteComponent(k)); break; } case 3: { std::vector<Probability> v = pv(rdist(p, n, 0)); Arg<std::vector<Probability> > ag(*this, v); Sut sut; o.a(m->WeightsSet(v)); break; } case 4: { if (n < 2) break; int k = p.draw(n); double w = p.real(0.05, 0.95); Sut sut; o.a(m->WeightSet(k, Probability(w))); break; }
      case 5: { Sample<ColumnVector> x(dim); { Sut sut; m->SampleFrom(x); } o.a(rv(x.ValueGet())); break; } case 6: { std::vector<Sample<ColumnVector> > l; { Sut sut; m->SampleFrom(l, p.range(1, 6), p.draw(2) ? SampleMthd::RIPLEY : SampleMthd::DEFAULT, NULL); } for (auto& x : l) o.a(rv(x.ValueGet())); break; } default: { std::unique_ptr<Mixture<ColumnVector> > c; { Sut sut; c.reset(m->Clone()); } o.a(c->WeightsGet()); Sut sut; *m = *c; c.reset(); } } observe(o); } };
template <class T> struct McJob : Job { int dim; std::unique_ptr<MCPdf<T> > d;
  McJob(uint64_t s) : Job(s) { dim = std::is_same<T, ColumnVector>::value ? 1 + s % 3 : 1; name = "sample-based density"; }
  Parts rp(Sim& p, int n) { Parts ps; for (int i = 0; i < n; i++) { P q; q.x = rkey<T>(p, dim, 4); q.w = p.real(0.05, 2); ps.push_back(q); } return ps; }
  std::vector<WeightedSample<T> > bel(int b) { Sim p = par(seed, 1000 + b); return wsamples<T>(rp(p, p.range(1, 10)), dim); }
  void build(int b) { UseStream us(words); auto v = bel(b); Arg<std::vector<WeightedSample<T> > > ag(*this, v); Sut sut; d.reset(new MCPdf<T>(v.size(), dim)); d->ListOfSamplesSet(v); }
  void rebelief(int b) { UseStream us(words); auto v = bel(b); Arg<std::vector<WeightedSample<T> > > ag(*this, v); Sut sut; d->ListOfSamplesSet(v); }
  Job* fork(int how) { McJob<T>* j = new McJob<T>(seed); j->words = words; j->env = env;  UseStream us(words); Sut sut; if (how == 0) j->d.reset(d->Clone()); else if (how == 1) j->d.reset(new MCPdf<T>(*d)); else { j->d.reset(new MCPdf<T>(1, dim)); *j->d = *d; } return j; }
  void drop() { Sut sut; d.reset(); } void observe(Out& o) { o.a(parts<T>(*d)); for (double c : d->CumulativePDFGet()) o.a(c); }
  void moments(Out& o, MCPdf<ColumnVector>& q) { ref::V m; ref::M C; { Sut sut; m = rv(q.ExpectedValueGet()); C = rm(q.CovarianceGet()); } o.a(m); o.a(C); } void moments(Out& o, MCPdf<unsigned>& q) { Sut sut; o.a(q.ExpectedValueGet()); }
  void step(int i, Out& o) { UseStream us(words); Sim p = par(seed, i + 1); switch (p.draw(7)) { case 0: { auto v = wsamples<T>(rp(p, p.range(1, 12)), dim); Arg<std::vector<WeightedSample<T> > > ag(*this, v); Sut sut; o.a(d->ListOfSamplesSet(v)); break; } case 1: { auto v = wsamples<T>(rp(p, d->NumSamplesGet()), dim); Arg<std::vector<WeightedSample<T> > > ag(*this, v); Sut sut; o.a(d->ListOfSamplesUpdate(v)); break; } case 2: { Parts q = rp(p, p.range(1, 12)); std::vector<Sample<T> > l; for (auto& x : q) { Sample<T> y(dim); y.ValueSet(TT<T>::mk(x.x)); l.push_back(y); } Arg<std::vector<Sample<T> > > ag(*this, l); Sut sut; o.a(d->ListOfSamplesSet(l)); break; } case 3: { Sample<T> x(dim); { Sut sut; d->SampleFrom(x); } o.a(TT<T>::key(x.ValueGet())); break; } case 4: { std::vector<Sample<T> > l; { Sut sut; d->SampleFrom(l, p.range(1, 9), p.draw(2) ? SampleMthd::RIPLEY : SampleMthd::DEFAULT, NULL); } for (auto& x : l) o.a(TT<T>::key(x.ValueGet())); break; } case 5: moments(o, *d); break;
      default: { std::unique_ptr<MCPdf<T> > c; { Sut sut; c.reset(d->Clone()); } o.a(parts<T>(*c)); Sut sut; *d = *c; c.reset(); } } observe(o); } };
struct GaussJob : Job { int dim; std::unique_ptr<Gaussian> g; bool late;
  GaussJob(uint64_t s) : Job(s) { dim = 1 + s % 4; late = (s >> 5) & 1; name = "Gaussian density"; }
  void bel(int b, ColumnVector& m, SymmetricMatrix& S) { Sim p = par(seed, 1000 + b); m = cv(rvec(p, dim, 3)); S = csym(rspd(p, dim, 0.2, 3, p.draw(2))); }
  void build(int b) { UseStream us(words); ColumnVector m; SymmetricMatrix S; bel(b, m, S); Sut sut; if (late) { g.reset(new Gaussian()); g->ExpectedValueSet(m); g->CovarianceSet(S); } else g.reset(new Gaussian(m, S)); }
  void rebelief(int b) { UseStream us(words); ColumnVector m; SymmetricMatrix S; bel(b, m, S); Sut sut; g->ExpectedValueSet(m); g->CovarianceSet(S); }
  Job* fork(int how) { GaussJob* j = new GaussJob(seed); j->words = words; j->env = env;  UseStream us(words); Sut sut; if (how == 0) j->g.reset(g->Clone()); else if (how == 1) j->g.reset(new Gaussian(*g)); else { j->g.reset(new Gaussian(dim)); *j->g = *g; } return j; }
  void drop() { Sut sut; g.reset(); } void observe(Out& o) { o.a(rv(g->ExpectedValueGet())); o.a(rm(g->CovarianceGet())); }
  void step(int i, Out& o) { UseStream us(words); Sim p = par(seed, i + 1); switch (p.draw(7)) { case 0: { ColumnVector m = cv(rvec(p, dim, 3)); Arg<ColumnVector> ag(*this, m); Sut sut; g->ExpectedValueSet(m); break; } case 1: { SymmetricMatrix S = csym(rspd(p, dim, 0.2, 3, p.draw(2))); Arg<SymmetricMatrix> ag(*this, S); Sut sut; g->CovarianceSet(S); break; } case 2: case 3: { ColumnVector x = cv(rvec(p, dim, 3)); double v; { Sut sut; v = g->ProbabilityGet(x); } o.a(v); break; } case 4: { Sample<ColumnVector> x(dim); { Sut sut; g->SampleFrom(x); } o.a(rv(x.ValueGet())); break; } case 5: { std::vector<Sample<ColumnVector> > l; { Sut sut; g->SampleFrom(l, p.range(1, 5), SampleMthd::CHOLESKY, NULL); } for (auto& x : l) o.a(rv(x.ValueGet())); break; } default: { std::unique_ptr<Gaussian> c; { Sut sut; c.reset(g->Clone()); } o.a(rv(c->ExpectedValueGet())); Sut sut; *g = *c; c.reset(); } } observe(o); } };
struct CondJob : Job { Fun f; std::unique_ptr<Gaussian> nz; std::unique_ptr<LinearAnalyticConditionalGaussian> d; ref::M A; 
  CondJob(uint64_t s) : Job(s) { Sim p = par(s, 0); name = "linear conditional Gaussian"; int n = p.range(1, 3); f = mkfun(p, n, p.range(1, 3), p.draw(2) ? p.range(1, 2) : 0, true, 0.1, 2, false); nz.reset(new Gaussian(cv(f.off), csym(f.C))); }
  void build(int b) { UseStream us(words); std::vector<Matrix> r; r.push_back(cm(f.A)); if (f.nu) r.push_back(cm(f.B)); { Sut sut; d.reset(new LinearAnalyticConditionalGaussian(r, *nz)); } rebelief(b); }
  void rebelief(int b) { UseStream us(words); Sim p = par(seed, 1000 + b); ColumnVector x = cv(rvec(p, f.n, 2)), u = cv(rvec(p, f.nu, 2)); Matrix A = cm(rmat(p, f.m, f.n, 1)), B = cm(f.B); ColumnVector mu = cv(rvec(p, f.m, 1)); SymmetricMatrix S = csym(rspd(p, f.m, 0.2, 3, true)); Sut sut; d->ConditionalArgumentSet(0, x); if (f.nu) { d->ConditionalArgumentSet(1, u); d->MatrixSet(1, B); } d->MatrixSet(0, A); d->AdditiveNoiseMuSet(mu); d->AdditiveNoiseSigmaSet(S); }
  Job* fork(int how) { CondJob* j = new CondJob(seed); j->words = words; j->env = env;  UseStream us(words); Sut sut; if (how == 0) j->d.reset(d->Clone()); else if (how == 1) j->d.reset(new LinearAnalyticConditionalGaussian(*d)); else j->d.reset(d->Clone()); return j; }
  bool mangle() { if (!nz) return false; nz->ExpectedValueSet(cv(ref::V(f.m, 1e5L))); return true; } bool freeprior() { nz.reset(); return true; } void freecallers() { nz.reset(); }
  void drop() { Sut sut; d.reset(); } void observe(Out& o) { o.a(rv(d->ExpectedValueGet())); o.a(rm(d->CovarianceGet())); o.a(rm(d->dfGet(0))); }
  void callers(Out& o) { if (!nz) return; o.a(rv(nz->ExpectedValueGet())); o.a(rm(nz->CovarianceGet())); }
  void step(int i, Out& o) { UseStream us(words); Sim p = par(seed, i + 1); switch (p.draw(7)) { case 0: { ColumnVector x = cv(rvec(p, f.n, 2)); Sut sut; d->ConditionalArgumentSet(0, x); break; } case 1: { Matrix A = cm(rmat(p, f.m, f.n, 1)); Sut sut; d->MatrixSet(0, A); break; } case 2: { SymmetricMatrix S = csym(rspd(p, f.m, 0.2, 3, true)); Sut sut; d->AdditiveNoiseSigmaSet(S); break; } case 3: { Sample<ColumnVector> x(f.m); { Sut sut; d->SampleFrom(x); } o.a(rv(x.ValueGet())); break; } case 4: { ColumnVector y = cv(rvec(p, f.m, 2)); double v; { Sut sut; v = d->ProbabilityGet(y); } o.a(v); break; } case 5: { std::vector<Sample<ColumnVector> > l; { Sut sut; d->SampleFrom(l, p.range(1, 4)); } for (auto& x : l) o.a(rv(x.ValueGet())); break; } default: { std::unique_ptr<LinearAnalyticConditionalGaussian> c; { Sut sut; c.reset(d->Clone()); } o.a(rv(c->ExpectedValueGet())); Sut sut; c.reset(); } } observe(o); } };
struct DcJob : Job { Table t; std::unique_ptr<DiscreteConditionalPdf> d;
  DcJob(uint64_t s) : Job(s) { name = "conditional discrete density"; }
  void build(int b) { UseStream us(words); Sim p = par(seed, 0); int na = p.range(1, 2); std::vector<int> dims; for (int i = 0; i < na; i++) dims.push_back(p.range(1, 4)); int n = p.range(1, 5); { Sut sut; d.reset(new DiscreteConditionalPdf(n, na, dims.data())); } t.n = n; t.dims = dims; rebelief(b); }
  void rebelief(int b) { UseStream us(words); Sim p = par(seed, 1000 + b); Table q = rtable(p, t.n, t.dims, 150); std::vector<int> a(t.dims.size()); { Sut sut; for (size_t i = 0; i < q.rows.size(); i++) { size_t k = i; for (size_t j = 0; j < t.dims.size(); j++) { a[j] = k % t.dims[j]; k /= t.dims[j]; } for (int x = 0; x < t.n; x++) d->ProbabilitySet((double)q.rows[i][x], x, a); } for (size_t j = 0; j < t.dims.size(); j++) d->ConditionalArgumentSet(j, (int)p.draw(t.dims[j])); } t = q; }
  Job* fork(int how) { DcJob* j = new DcJob(seed); j->words = words; j->env = env; j->t = t; UseStream us(words); Sut sut; if (how == 0) j->d.reset(d->Clone()); else if (how == 1) j->d.reset(new DiscreteConditionalPdf(*d)); else j->d.reset(d->Clone()); return j; }
  void drop() { Sut sut; d.reset(); } void observe(Out& o) { for (int x = 0; x < t.n; x++) o.a((double)d->ProbabilityGet(x)); }
  void step(int i, Out& o) { UseStream us(words); Sim p = par(seed, i + 1); switch (p.draw(4)) { case 0: { int j = p.draw(t.dims.size()), v = p.draw(t.dims[j]); Sut sut; d->ConditionalArgumentSet(j, v); break; } case 1: { Sample<int> x; { Sut sut; d->SampleFrom(x, SampleMthd::DEFAULT, NULL); } o.a(x.ValueGet()); break; } case 2: { std::vector<Sample<int> > l; { Sut sut; d->SampleFrom(l, p.range(1, 6), SampleMthd::DEFAULT, NULL); } for (auto& x : l) o.a(x.ValueGet()); break; } default: { std::unique_ptr<DiscreteConditionalPdf> c; { Sut sut; c.reset(d->Clone()); } for (int x = 0; x < t.n; x++) o.a((double)c->ProbabilityGet(x)); Sut sut; c.reset(); } } observe(o); } };
struct UniJob : Job { int dim; std::unique_ptr<Uniform> u; UniJob(uint64_t s) : Job(s) { dim = 1 + s % 3; name = "uniform density"; }
  void bel(int b, ColumnVector& c, ColumnVector& w) { Sim p = par(seed, 1000 + b); c = cv(rvec(p, dim, 3)); ref::V x = rvec(p, dim, 2); for (auto& y : x) y = std::fabs((double)y) + 0.25; w = cv(x); }
  void build(int b) { UseStream us(words); ColumnVector c, w; bel(b, c, w); Sut sut; if (seed & 64) u.reset(new Uniform(c, w)); else { u.reset(new Uniform(dim)); u->UniformSet(c, w); } }
  void rebelief(int b) { UseStream us(words); ColumnVector c, w; bel(b, c, w); Sut sut; u->UniformSet(c, w); }
  Job* fork(int how) { UniJob* j = new UniJob(seed); j->words = words; j->env = env;  UseStream us(words); Sut sut; if (how == 0) j->u.reset(u->Clone()); else if (how == 1) j->u.reset(new Uniform(*u)); else { j->u.reset(new Uniform(dim)); *j->u = *u; } return j; }
  void drop() { Sut sut; u.reset(); } void observe(Out& o) { o.a(rv(u->CenterGet())); o.a(rv(u->WidthGet())); }
  void step(int i, Out& o) { UseStream us(words); Sim p = par(seed, i + 1); switch (p.draw(5)) { case 0: rebelief(2 + p.draw(3)); break; case 1: { Sample<ColumnVector> x(dim); { Sut sut; u->SampleFrom(x); } o.a(rv(x.ValueGet())); break; } case 2: { std::vector<Sample<ColumnVector> > l; { Sut sut; u->SampleFrom(l, p.range(1, 5)); } for (auto& x : l) o.a(rv(x.ValueGet())); break; } case 3: { ColumnVector x = cv(rvec(p, dim, 3)); double v; { Sut sut; v = u->ProbabilityGet(x); } o.a(v); break; } default: { std::unique_ptr<Uniform> c; { Sut sut; c.reset(u->Clone()); } o.a(rv(c->CenterGet())); Sut sut; *u = *c; c.reset(); } } observe(o); } };
}
namespace W {
Job* mk_density(uint64_t s) { switch ((s >> 20) % 4) { case 0: return new DiscJob(s); case 1: return new MixJob(s); case 2: return new McJob<ColumnVector>(s); default: return new McJob<unsigned>(s); } }
Job* mk_density2(uint64_t s) { switch ((s >> 20) % 4) { case 0: return new GaussJob(s); case 1: return new CondJob(s); case 2: return new DcJob(s); default: return new UniJob(s); } }
}
