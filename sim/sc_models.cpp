#include "kmodels.h"
#include "dmodels.h"
#include "pmodels.h"
#include <filter/extendedkalmanfilter.h>
using namespace W;
namespace {
// ---- continuous densities and the models over them -------------------------------------------------------------
struct CP { Fun f, f0; std::unique_ptr<Gaussian> noise; std::unique_ptr<AnalyticConditionalGaussian> pdf; };
void mkcp(CP& c, const Fun& f) { c.f = c.f0 = f; c.pdf.reset(mkpdf(f, c.noise)); }
struct CM { int kind; int p; std::unique_ptr<SystemModel<ColumnVector> > sys; std::unique_ptr<MeasurementModel<ColumnVector, ColumnVector> > meas; };
void mkcm(CM& m, int kind, CP& c, int p) { m.kind = kind; m.p = p; m.sys.reset(); m.meas.reset(); bool lin = c.f.lin && kind >= 4; Sut sut;
  if (kind & 1) { if (kind < 2) m.meas.reset(new MeasurementModel<ColumnVector, ColumnVector>(c.pdf.get())); else if (lin) m.meas.reset(new LinearAnalyticMeasurementModelGaussianUncertainty((LinearAnalyticConditionalGaussian*)c.pdf.get())); else m.meas.reset(new AnalyticMeasurementModelGaussianUncertainty(c.pdf.get())); }
  else { if (kind < 2) m.sys.reset(new SystemModel<ColumnVector>(c.pdf.get())); else if (lin) m.sys.reset(new LinearAnalyticSystemModelGaussianUncertainty((LinearAnalyticConditionalGaussian*)c.pdf.get())); else m.sys.reset(new AnalyticSystemModelGaussianUncertainty(c.pdf.get())); } }
bool is_lin(const CM& m, const CP& c) { return c.f.lin && m.kind >= 4; }
void cmpv(Sim& s, const char* cls, const char* what, const ref::V& got, const ref::V& want, double rel = 1e-10) { double t = rel * (1 + (double)ref::scale(want)); if (got.size() != want.size()) s.fail(cls, "%s has %zu values, expected %zu", what, got.size(), want.size()); for (size_t i = 0; i < got.size(); i++) if (!close((double)got[i], (double)want[i], t)) s.fail(cls, "%s is %s, expected %s", what, str(got).c_str(), str(want).c_str()); }
void cmpm(Sim& s, const char* cls, const char* what, const ref::M& got, const ref::M& want, double rel = 1e-10) { double t = rel * (1 + (double)ref::scale(want)); if (got.r != want.r || got.c != want.c) s.fail(cls, "%s is %dx%d, expected %dx%d", what, got.r, got.c, want.r, want.c); for (size_t i = 0; i < got.a.size(); i++) if (!close((double)got.a[i], (double)want.a[i], t)) s.fail(cls, "%s is %s, expected %s", what, str(got).c_str(), str(want).c_str()); }
void cmpp(Sim& s, const char* what, double got, ref::R want) { if (want > 1e-280L && std::fabs((double)(got / want - 1)) > 1e-6) s.fail("probability", "%s is %.12g, expected %.12g", what, got, (double)want); if (want < 1e-290L && !(got >= 0 && got < 1e-280)) s.fail("probability", "%s is %.12g, expected %.12g", what, got, (double)want); }
ref::V point(Sim& s, const Fun& f, const ref::V& x, const ref::V& u) { ref::V y = f.f(x, u); ref::V d = rvec(s, f.m, s.draw(3) ? 2 : 0.25); for (int i = 0; i < f.m; i++) y[i] = (ref::R)(double)(y[i] + d[i] * std::sqrt((double)f.C(i, i))); return y; }

void cont_run(Sim& s) {
  int n = s.range(1, 4); int np = s.range(1, 4), nm = s.range(1, 5); std::vector<CP> P(np); std::vector<CM> M(nm);
  for (int i = 0; i < np; i++) { bool lin = s.draw(3) != 0; int nu = s.draw(2) ? s.range(1, 3) : 0; if (s.draw(4) == 0) nu = n; int m = s.draw(2) ? n : s.range(1, 4); mkcp(P[i], mkfun(s, n, m, nu, lin, 0.05, 1.5, false)); }
  for (auto& m : M) { int p = s.draw(np), k = s.draw(6); if (P[p].f.m != n) k |= 1; mkcm(m, k, P[p], p); }
  WordStream words(s.seed64()); if (s.config >= 1 && s.draw(3) == 0) { words.mode = 1; words.inj = 50 + s.draw(300); } UseStream us(words);
  std::unique_ptr<ExtendedKalmanFilter> ekf; std::vector<ref::V> oldx, oldu(5); int steps = s.chance(60) ? s.range(60, 200) : s.range(1, 30); bool faults = s.config >= 1;
  auto argx = [&](int k) { ref::V v = !oldx.empty() && s.chance(350) ? oldx[s.draw(oldx.size())] : rvec(s, k, 3); if ((int)v.size() != k) v = rvec(s, k, 3); if (s.draw(4) == 0 && k) v[s.draw(k)] = q12(s.sym(3)); oldx.push_back(v); return v; };
  auto argu = [&](int k) { ref::V v = s.chance(350) && (int)oldu[k].size() == k ? oldu[k] : rvec(s, k, 2); if (s.draw(4) == 0 && k) v[s.draw(k)] = q12(s.sym(2)); oldu[k] = v; return v; };
  std::unique_ptr<AnalyticConditionalGaussian> copy; Fun cf;   // a copy of some density with its own later life
  for (int t = 0; t < steps; t++) { s.simtime += 1;
    int op = s.draw(16);
    if (op < 8) {   // ask a model
      CM& m = M[s.draw(nm)]; CP& c = P[m.p]; const Fun& f = c.f; ref::V x = argx(n), u = argu(f.nu); ColumnVector X = cv(x), U = cv(u); int q = s.draw(5); s.simtime += 0;
      AnalyticSystemModelGaussianUncertainty* as = m.kind >= 2 ? (AnalyticSystemModelGaussianUncertainty*)m.sys.get() : 0; AnalyticMeasurementModelGaussianUncertainty* am = m.kind >= 2 ? (AnalyticMeasurementModelGaussianUncertainty*)m.meas.get() : 0; if (m.kind < 2 && q > 0 && q < 4) q = s.draw(2) ? 0 : 4;
      s.ev("model", "%d kind %d pdf %d q %d x=%s u=%s", (int)(&m - &M[0]), m.kind, m.p, q, str(x).c_str(), str(u).c_str()); s.probe("model_query");
      bool alias = faults && s.draw(6) == 0 && c.pdf->ConditionalArgumentGet(0).rows() == (unsigned)n;   // the caller passes the density's own stored argument
      if (alias) { x = rv(c.pdf->ConditionalArgumentGet(0)); s.fault("argument_alias"); } const ColumnVector& XX = alias ? c.pdf->ConditionalArgumentGet(0) : X; const ColumnVector& UU = f.nu == n && faults && s.draw(5) == 0 ? (u = x, XX) : U;
      if (q == 0) { ref::V y = point(s, f, x, u); ColumnVector Y = cv(y); double g; { Sut sut; g = m.sys ? (f.nu ? m.sys->ProbabilityGet(Y, XX, UU) : m.sys->ProbabilityGet(Y, XX)) : (f.nu ? m.meas->ProbabilityGet(Y, XX, UU) : m.meas->ProbabilityGet(Y, XX)); } s.h(g); cmpp(s, "density of the model", g, ref::gausspdf(y, f.f(x, u), f.S(x, u))); }
      else if (q == 1) { ColumnVector r; { Sut sut; r = m.sys ? as->PredictionGet(UU, XX) : am->PredictionGet(UU, XX); } h(s, rv(r)); cmpv(s, "prediction", "prediction of the model", rv(r), f.f(x, u)); }
      else if (q == 2) { SymmetricMatrix r; { Sut sut; r = m.sys ? as->CovarianceGet(UU, XX) : am->CovarianceGet(UU, XX); } cmpm(s, "covariance", "covariance of the model", rm(r), f.S(x, u)); }
      else if (q == 3) { Matrix r; { Sut sut; r = m.sys ? as->df_dxGet(UU, XX) : am->df_dxGet(UU, XX); } cmpm(s, "jacobian", "Jacobian of the model", rm(r), f.F(x, u)); }
      else { SampleMthd mt = s.draw(2) ? SampleMthd::DEFAULT : SampleMthd::CHOLESKY; WordStream w2 = words; ColumnVector r; bool dflt = mt == SampleMthd::DEFAULT && s.draw(2); { Sut sut; if (dflt) r = m.sys ? (f.nu ? m.sys->Simulate(XX, UU) : m.sys->Simulate(XX)) : (f.nu ? m.meas->Simulate(XX, UU) : m.meas->Simulate(XX)); else r = m.sys ? (f.nu ? m.sys->Simulate(XX, UU, mt) : m.sys->Simulate(XX, mt)) : (f.nu ? m.meas->Simulate(XX, UU, mt) : m.meas->Simulate(XX, mt)); }
        std::unique_ptr<Gaussian> nz; std::unique_ptr<AnalyticConditionalGaussian> fresh(mkpdf(f, nz)); fresh->ConditionalArgumentSet(0, cv(x)); if (f.nu) fresh->ConditionalArgumentSet(1, cv(u)); Sample<ColumnVector> y(f.m); { UseStream u2(w2); fresh->SampleFrom(y, mt, NULL); } h(s, rv(r)); cmpv(s, "simulate", "value simulated by the model", rv(r), rv(y.ValueGet()), 1e-9); if (w2.consumed != words.consumed) s.fail("simulate-words", "model consumed %llu random words, a fresh density %llu", (unsigned long long)words.consumed, (unsigned long long)w2.consumed); }
    } else if (op == 8) {   // bookkeeping queries
      CM& m = M[s.draw(nm)]; CP& c = P[m.p]; const Fun& f = c.f; s.ev("sizes"); bool wo; int sz; ConditionalPdf<ColumnVector, ColumnVector>* pp; { Sut sut; wo = m.sys ? m.sys->SystemWithoutInputs() : m.meas->SystemWithoutSensorParams(); sz = m.sys ? m.sys->StateSizeGet() : m.meas->MeasurementSizeGet(); pp = m.sys ? m.sys->SystemPdfGet() : m.meas->MeasurementPdfGet(); }
      if (wo != (f.nu == 0) || sz != f.m || pp != c.pdf.get()) s.fail("model-sizes", "model reports without-inputs %d size %d, its density has %d inputs and size %d", (int)wo, sz, f.nu, f.m);
      if (is_lin(m, c)) { Sut sut; if (m.sys) { LinearAnalyticSystemModelGaussianUncertainty* l = (LinearAnalyticSystemModelGaussianUncertainty*)m.sys.get(); cmpm(s, "matrix", "A", rm(l->AGet()), f.A, 0); if (f.nu) cmpm(s, "matrix", "B", rm(l->BGet()), f.B, 0); } else { LinearAnalyticMeasurementModelGaussianUncertainty* l = (LinearAnalyticMeasurementModelGaussianUncertainty*)m.meas.get(); cmpm(s, "matrix", "H", rm(l->HGet()), f.A, 0); if (f.nu) cmpm(s, "matrix", "J", rm(l->JGet()), f.B, 0); } }
      if (f.lin) { LinearAnalyticConditionalGaussian* l = (LinearAnalyticConditionalGaussian*)c.pdf.get(); cmpv(s, "noise", "additive noise mean", rv(l->AdditiveNoiseMuGet()), f.off, 0); cmpm(s, "noise", "additive noise covariance", rm(l->AdditiveNoiseSigmaGet()), f.C, 0); }
    } else if (op == 9 || op == 10) {   // use of the density itself: all arguments, then single ones changed
      bool cp = copy && s.draw(3) == 0; CP& c = P[s.draw(np)]; AnalyticConditionalGaussian* d = cp ? copy.get() : c.pdf.get(); const Fun& f = cp ? cf : c.f; ref::V x = argx(n), u = argu(f.nu); s.ev("density", "%s", cp ? "copy" : "own"); s.probe("density_direct");
      if (s.draw(2)) { std::vector<ColumnVector> a(1, cv(x)); if (f.nu) a.push_back(cv(u)); Sut sut; d->ConditionalArgumentsSet(a); } else { Sut sut; d->ConditionalArgumentSet(0, cv(x)); if (f.nu) d->ConditionalArgumentSet(1, cv(u)); }
      for (int k = s.range(1, 3); k > 0; k--) { int q = s.draw(4);
        if (q == 0) { ref::V y = point(s, f, x, u); double g; { Sut sut; g = d->ProbabilityGet(cv(y)); } cmpp(s, "density", g, ref::gausspdf(y, f.f(x, u), f.S(x, u))); }
        else if (q == 1) { ColumnVector r; { Sut sut; r = d->ExpectedValueGet(); } cmpv(s, "prediction", "expected value", rv(r), f.f(x, u)); }
        else if (q == 2) { SymmetricMatrix r; { Sut sut; r = d->CovarianceGet(); } cmpm(s, "covariance", "covariance", rm(r), f.S(x, u)); }
        else { Sample<ColumnVector> y(f.m); WordStream w2 = words; { Sut sut; d->SampleFrom(y); } std::unique_ptr<Gaussian> nz; std::unique_ptr<AnalyticConditionalGaussian> fresh(mkpdf(f, nz)); fresh->ConditionalArgumentSet(0, cv(x)); if (f.nu) fresh->ConditionalArgumentSet(1, cv(u)); Sample<ColumnVector> y2(f.m); { UseStream u2(w2); fresh->SampleFrom(y2); } cmpv(s, "simulate", "sample of the density", rv(y.ValueGet()), rv(y2.ValueGet()), 1e-9); }
        cmpv(s, "stored-argument", "stored conditional argument", rv(d->ConditionalArgumentGet(0)), x, 0); if (f.nu) cmpv(s, "stored-argument", "stored conditional argument", rv(d->ConditionalArgumentsGet()[1]), u, 0);
        if (s.draw(2)) { x = argx(n); Sut sut; d->ConditionalArgumentSet(0, cv(x)); } else if (f.nu) { u = argu(f.nu); Sut sut; d->ConditionalArgumentSet(1, cv(u)); } }
    } else if (op == 11) {  // parameters changed by the caller
      CP& c = P[s.draw(np)]; Fun g = tuned(s, c.f, c.f0, 1, 0.05, 1.5); s.fault("model_retuned"); s.ev("retune"); if (!g.lin) { ((NLPdf*)c.pdf.get())->f = g; c.f = g; } else { LinearAnalyticConditionalGaussian* l = (LinearAnalyticConditionalGaussian*)c.pdf.get(); bool all = s.draw(4) == 0; bool dA = all || g.A.a != c.f.A.a, dB = g.nu && (all || g.B.a != c.f.B.a), dm = all || g.off != c.f.off, dC = all || g.C.a != c.f.C.a; c.f = g; int via = -1; for (int i = 0; i < nm; i++) if (&P[M[i].p] == &c && is_lin(M[i], c) && s.draw(2)) via = i; Sut sut;
        if (dA) { if (via < 0) l->MatrixSet(0, cm(g.A)); else if (M[via].sys) ((LinearAnalyticSystemModelGaussianUncertainty*)M[via].sys.get())->ASet(cm(g.A)); else ((LinearAnalyticMeasurementModelGaussianUncertainty*)M[via].meas.get())->HSet(cm(g.A)); }
        if (dB) { if (via < 0) l->MatrixSet(1, cm(g.B)); else if (M[via].sys) ((LinearAnalyticSystemModelGaussianUncertainty*)M[via].sys.get())->BSet(cm(g.B)); else ((LinearAnalyticMeasurementModelGaussianUncertainty*)M[via].meas.get())->JSet(cm(g.B)); }
        if (dm) l->AdditiveNoiseMuSet(cv(g.off)); if (dC) l->AdditiveNoiseSigmaSet(csym(g.C)); }
    } else if (op == 12) {  // the model is given another density (same kind of model, same state size)
      CM& m = M[s.draw(nm)]; int p = s.draw(np); if (m.sys && P[p].f.m != n) continue; if (m.kind >= 4 && P[p].f.lin != P[m.p].f.lin) continue; s.ev("pdfset", "%d -> %d", m.p, p); s.fault("model_rebound"); m.p = p; Sut sut; if (m.sys) m.sys->SystemPdfSet(P[p].pdf.get()); else m.meas->MeasurementPdfSet(P[p].pdf.get());
    } else if (op == 13) {  // a model is destroyed and made anew, or copied
      CM& m = M[s.draw(nm)]; s.ev("remodel"); s.fault("model_recreated"); mkcm(m, m.kind, P[m.p], m.p);
    } else if (op == 14) {  // a copy of a density, living on
      CP& c = P[s.draw(np)]; s.ev("copy"); { Sut sut; copy.reset(); if (s.draw(2) || !c.f.lin) copy.reset((AnalyticConditionalGaussian*)c.pdf->Clone()); else copy.reset(new LinearAnalyticConditionalGaussian(*(LinearAnalyticConditionalGaussian*)c.pdf.get())); } cf = c.f;
    } else {                // a filter works with one of the models in between
      CM& m = M[s.draw(nm)]; if (m.kind < 2) continue; const Fun& f = P[m.p].f; s.fault("model_shared"); s.ev("filter"); ref::Belief b; b.m = rvec(s, n, 2); b.P = rspd(s, n, 0.1, 2, true); Gaussian g(cv(b.m), csym(b.P)); ref::V u = argu(f.nu); Sut sut; if (!ekf) ekf.reset(new ExtendedKalmanFilter(&g)); else ekf->Reset(&g); if (m.sys) { ekf->Update(m.sys.get(), cv(u)); b = ref::kf_predict(b, f.f(b.m, u), f.F(b.m, u), f.S(b.m, u)); } else { ref::V z = rvec(s, f.m, 2); ekf->Update(m.meas.get(), cv(z), cv(u)); b = ref::kf_correct(b, z, f.f(b.m, u), f.F(b.m, u), f.S(b.m, u)); } cmp_belief(s, "filter on a shared model", belief(*ekf->PostGet()), b, 1e-7);
    }
  }
}
// ---- discrete tables ----------------------------------------------------------------------------------------------
void disc_run(Sim& s) {
  int n = s.range(1, 7); int np = s.range(1, 3), nm = s.range(1, 4); std::vector<Table> T; std::vector<std::unique_ptr<DiscreteConditionalPdf> > P;
  for (int i = 0; i < np; i++) { std::vector<int> d(1, n); if (s.draw(2)) d.push_back(s.range(1, 4)); T.push_back(rtable(s, s.draw(2) ? n : s.range(1, 6), d, s.draw(2) ? 250 : 0)); P.emplace_back(mkcond(T[i])); }
  struct DM { int kind, p; std::unique_ptr<SystemModel<int> > sys; std::unique_ptr<MeasurementModel<int, int> > meas; }; std::vector<DM> M(nm);
  auto mk = [&](DM& m, int kind, int p) { m.kind = kind; m.p = p; m.sys.reset(); m.meas.reset(); Sut sut; if (kind == 0) m.sys.reset(new DiscreteSystemModel(P[p].get())); else if (kind == 1) m.sys.reset(new SystemModel<int>(P[p].get())); else m.meas.reset(new MeasurementModel<int, int>(P[p].get())); };
  for (auto& m : M) { int p = s.draw(np); mk(m, T[p].n == n ? s.draw(3) : 2, p); }
  WordStream words(s.seed64()); if (s.config >= 1 && s.draw(2)) { words.mode = 1; words.inj = 50 + s.draw(400); } UseStream us(words); int steps = s.chance(60) ? s.range(60, 200) : s.range(1, 30);
  for (int t = 0; t < steps; t++) { s.simtime += 1; int op = s.draw(10); DM& m = M[s.draw(nm)]; Table& tb = T[m.p]; int x = s.draw(n), u = tb.dims.size() > 1 ? s.draw(tb.dims[1]) : 0; std::vector<int> a(1, x); if (tb.dims.size() > 1) a.push_back(u); bool in = a.size() > 1; const DV& row = tb.row(a);
    if (op < 3) { int y = s.draw(tb.n); double g; s.ev("probability", "pdf %d y %d x %d u %d", m.p, y, x, u); s.probe("model_query"); { Sut sut; g = m.sys ? (in ? m.sys->ProbabilityGet(y, x, u) : m.sys->ProbabilityGet(y, x)) : (in ? m.meas->ProbabilityGet(y, x, u) : m.meas->ProbabilityGet(y, x)); } s.h(g); if (g != (double)row[y]) s.fail("probability", "P(%d|%d,%d) is %.12g, table has %.12g", y, x, u, g, (double)row[y]); }
    else if (op < 6) { s.ev("simulate", "pdf %d x %d u %d", m.p, x, u); s.probe("model_query"); WordStream w2 = words; int y; { Sut sut; y = m.sys ? (in ? m.sys->Simulate(x, u) : m.sys->Simulate(x)) : (in ? m.meas->Simulate(x, u) : m.meas->Simulate(x)); } s.h64(y); if (y < 0 || y >= tb.n || !(row[y] > 0)) s.fail("simulate-support", "simulated state %d given %d,%d has probability 0 (of %d states)", y, x, u, tb.n); std::unique_ptr<DiscreteConditionalPdf> fresh(mkcond(tb)); fresh->ConditionalArgumentsSet(a); Sample<int> z; { UseStream u2(w2); fresh->SampleFrom(z, SampleMthd::DEFAULT, NULL); } if (z.ValueGet() != y) s.fail("simulate", "model simulated %d, a fresh density %d with the same random words", y, z.ValueGet()); }
    else if (op == 6) { s.ev("sizes"); Sut sut; bool wo = m.sys ? m.sys->SystemWithoutInputs() : m.meas->SystemWithoutSensorParams(); if (wo == in) s.fail("model-sizes", "model says without inputs: %d", (int)wo); if (m.kind == 0 && (int)((DiscreteSystemModel*)m.sys.get())->NumStatesGet() != tb.n) s.fail("model-sizes", "model reports %u states, its table has %d", ((DiscreteSystemModel*)m.sys.get())->NumStatesGet(), tb.n); }
    else if (op == 7) { s.ev("retune"); s.fault("model_retuned"); DV& r = tb.rows[tb.idx(a)]; r = rdist(s, tb.n, 200); for (auto& v : r) v = (ref::R)(double)v; Sut sut; for (int y = 0; y < tb.n; y++) P[m.p]->ProbabilitySet((double)r[y], y, a); }
    else if (op == 8) { int p = s.draw(np); if (m.sys && T[p].n != n) continue; s.ev("pdfset", "%d -> %d", m.p, p); s.fault("model_rebound"); m.p = p; Sut sut; if (m.sys) m.sys->SystemPdfSet(P[p].get()); else m.meas->MeasurementPdfSet(P[p].get()); }
    else { s.ev("remodel"); s.fault("model_recreated"); if (m.kind == 0 && s.draw(2)) { Sut sut; DiscreteSystemModel* c = new DiscreteSystemModel(*(DiscreteSystemModel*)m.sys.get()); m.sys.reset(c); } else mk(m, m.kind, m.p); }
  }
}
// ---- user-defined densities: the model hands over exactly the arguments it was called with -----------------------
struct UserPdf : public ConditionalPdf<double, unsigned int> { mutable std::vector<double> seen; mutable std::vector<int> meth; mutable void* args; double scale; int failing;
  UserPdf(int na, double sc) : ConditionalPdf<double, unsigned int>(1, na), args(0), scale(sc), failing(0) {} virtual UserPdf* Clone() const { return new UserPdf(*this); }
  double val() const { double v = 0; for (unsigned i = 0; i < NumConditionalArgumentsGet(); i++) { v = v * 16 + ConditionalArgumentGet(i); } return v; }
  virtual Probability ProbabilityGet(const double& z) const { sim::NoSut n; if (failing) throw 7; return Probability(std::fabs(z) + scale * val()); }
  virtual bool SampleFrom(Sample<double>& o, const SampleMthd m = SampleMthd::DEFAULT, void* a = NULL) const { sim::NoSut n; if (failing) throw 7; meth.push_back((int)m); args = a; o.ValueSet(1000 * scale + val()); return true; } };
void user_run(Sim& s) {
  int np = s.range(1, 3), nm = s.range(1, 3); std::vector<std::unique_ptr<UserPdf> > P; for (int i = 0; i < np; i++) P.emplace_back(new UserPdf(1 + s.draw(2), 1 + i)); struct UM { int p; std::unique_ptr<MeasurementModel<double, unsigned> > m; }; std::vector<UM> M(nm); for (auto& m : M) { m.p = s.draw(np); m.m.reset(new MeasurementModel<double, unsigned>(P[m.p].get())); }
  int steps = s.range(1, 40); int dummy;
  for (int t = 0; t < steps; t++) { s.simtime += 1; UM& m = M[s.draw(nm)]; UserPdf& p = *P[m.p]; bool two = p.NumConditionalArgumentsGet() == 2; unsigned x = s.draw(16), u = s.draw(16); double v = two ? x * 16.0 + u : x; int op = s.draw(6); bool bad = s.config >= 1 && s.chance(150);   // the user's own density fails
    p.failing = bad; bool threw = false; s.ev("user", "op %d x %u u %u%s", op, x, u, bad ? " failing" : ""); if (bad) s.fault("user_model_throws");
    try {
      if (op < 2) { double z = s.real(0, 4), g; { Sut sut; g = two ? m.m->ProbabilityGet(z, x, u) : m.m->ProbabilityGet(z, x); } if (g != z + p.scale * v) s.fail("probability", "model answers %.9g, its density %.9g", g, z + p.scale * v); s.probe("model_query"); }
      else if (op < 4) { SampleMthd mt = s.draw(2) ? SampleMthd::DEFAULT : SampleMthd::RIPLEY; void* a = s.draw(2) ? &dummy : 0; double g; { Sut sut; g = two ? m.m->Simulate(x, u, mt, a) : m.m->Simulate(x, mt, a); } if (g != 1000 * p.scale + v) s.fail("simulate", "model simulates %.9g, its density drew %.9g", g, 1000 * p.scale + v); if (p.meth.back() != (int)mt || p.args != a) s.fail("simulate-method", "the density was asked for method %d args %p, the caller asked for %d %p", p.meth.back(), p.args, (int)mt, a); s.probe("model_query"); }
      else if (op == 4) { int q = s.draw(np); s.fault("model_rebound"); Sut sut; m.m->MeasurementPdfSet(P[q].get()); m.p = q; }
      else { Sut sut; if (m.m->SystemWithoutSensorParams() == two || m.m->MeasurementPdfGet() != P[m.p].get()) s.fail("model-sizes", "model reports without parameters %d for a density with %d arguments", (int)m.m->SystemWithoutSensorParams(), two ? 2 : 1); }
    } catch (int) { threw = true; }
    if (bad && op < 4 && !threw) s.fail("failure-swallowed", "the density threw, the model call returned normally"); p.failing = 0; }
}
}
SCENARIO(C20, 2) { switch (s.draw(8)) { case 0: case 1: disc_run(s); break; case 2: user_run(s); break; default: cont_run(s); } }
