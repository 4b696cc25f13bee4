#ifndef KMODELS_H
#define KMODELS_H
#include "bflcommon.h"
namespace W {
using namespace BFL;
// A (non)linear analytic model y = A x + B u + off + a .* sin(x rotated + .75 u_0) ; covariance C * (1 + g s(x_0) + s(u_0)/2), s(v) = v^2/(1+v^2)
struct Fun {
  int n, m, nu; ref::M A, B; ref::V a, off; ref::R g; ref::M C; bool lin;   // m outputs
  ref::R ph(int i, const ref::V& x, const ref::V& u) const { return x[(i + 1) % n] + (nu && u.size() ? 0.75L * u[0] : 0.0L); }   // input and state interact
  ref::V f(const ref::V& x, const ref::V& u) const { ref::V y = ref::mul(A, x); if (nu) y = ref::add(y, ref::mul(B, u)); for (int i = 0; i < m; i++) { y[i] += off[i]; if (!lin) y[i] += a[i] * std::sin(ph(i, x, u)); } return y; }
  ref::M F(const ref::V& x, const ref::V& u) const { ref::M j = A; if (!lin) for (int i = 0; i < m; i++) j(i, (i + 1) % n) += a[i] * std::cos(ph(i, x, u)); return j; }
  ref::M Fu(const ref::V& x, const ref::V& u) const { ref::M j = B; if (!lin && nu) for (int i = 0; i < m; i++) j(i, 0) += 0.75L * a[i] * std::cos(ph(i, x, u)); return j; }
  ref::M S(const ref::V& x, const ref::V& u) const { ref::M o = C; if (!lin && g != 0) for (auto& v : o.a) v *= (1 + g * x[0] * x[0] / (1 + x[0] * x[0]) + (nu && u.size() ? 0.5L * u[0] * u[0] / (1 + u[0] * u[0]) : 0.0L)); return o; }
};
inline Fun mkfun(Sim& s, int n, int m, int nu, bool lin, double noiselo, double noisehi, bool stable) {
  Fun f; f.n = n; f.m = m; f.nu = nu; f.lin = lin; f.A = rmat(s, m, n, stable ? 0.9 / n + 0.1 : 1.0);
  if (stable) for (int i = 0; i < n; i++) f.A(i, i) += q12(s.real(0.2, 0.5)); else for (int i = 0; i < m; i++) f.A(i, i % n) += 1;
  f.B = rmat(s, m, nu, 1.0); f.a = rvec(s, m, 0.4); f.off = rvec(s, m, 0.5); f.g = lin ? 0 : (s.draw(2) ? 0.75L : 0.0L); f.C = rspd(s, m, noiselo, noisehi, s.draw(2)); return f;
}
// harness-defined analytic conditional Gaussian (the library's documented extension point)
struct NLPdf : public AnalyticConditionalGaussian {
  Fun f; mutable unsigned calls;
  NLPdf(const Fun& f_) : AnalyticConditionalGaussian(f_.m, f_.nu ? 2 : 1), f(f_), calls(0) {}
  virtual NLPdf* Clone() const { return new NLPdf(*this); }
  ref::V X() const { return rv(ConditionalArgumentGet(0)); }
  ref::V U() const { return f.nu ? rv(ConditionalArgumentGet(1)) : ref::V(); }
  virtual ColumnVector ExpectedValueGet() const { sim::NoSut n; model_cb(); return cv(f.f(X(), U())); }
  virtual SymmetricMatrix CovarianceGet() const { sim::NoSut n; model_cb(); return csym(f.S(X(), U())); }
  virtual Matrix dfGet(unsigned i) const { sim::NoSut n; model_cb(); return i == 0 ? cm(f.F(X(), U())) : cm(f.Fu(X(), U())); }
};
struct SysM { Fun f; std::unique_ptr<Gaussian> noise; std::unique_ptr<AnalyticConditionalGaussian> pdf; std::unique_ptr<AnalyticSystemModelGaussianUncertainty> model; };
struct MeasM { Fun f; std::unique_ptr<Gaussian> noise; std::unique_ptr<AnalyticConditionalGaussian> pdf; std::unique_ptr<AnalyticMeasurementModelGaussianUncertainty> model; };
inline AnalyticConditionalGaussian* mkpdf(const Fun& f, std::unique_ptr<Gaussian>& noise) {
  if (!f.lin) return new NLPdf(f);
  noise.reset(new Gaussian(cv(f.off), csym(f.C)));
  if (f.nu) { std::vector<Matrix> r; r.push_back(cm(f.A)); r.push_back(cm(f.B)); return new LinearAnalyticConditionalGaussian(r, *noise); }
  return new LinearAnalyticConditionalGaussian(cm(f.A), *noise);
}
inline void mksys(SysM& o, const Fun& f) { o.f = f; o.pdf.reset(mkpdf(f, o.noise)); if (f.lin) o.model.reset(new LinearAnalyticSystemModelGaussianUncertainty((LinearAnalyticConditionalGaussian*)o.pdf.get())); else o.model.reset(new AnalyticSystemModelGaussianUncertainty(o.pdf.get())); }
inline void mkmeas(MeasM& o, const Fun& f) { o.f = f; o.pdf.reset(mkpdf(f, o.noise)); if (f.lin) o.model.reset(new LinearAnalyticMeasurementModelGaussianUncertainty((LinearAnalyticConditionalGaussian*)o.pdf.get())); else o.model.reset(new AnalyticMeasurementModelGaussianUncertainty(o.pdf.get())); }
inline void remodel(SysM& o) { o.model.reset(); if (o.f.lin) o.model.reset(new LinearAnalyticSystemModelGaussianUncertainty((LinearAnalyticConditionalGaussian*)o.pdf.get())); else o.model.reset(new AnalyticSystemModelGaussianUncertainty(o.pdf.get())); }
inline void remodel(MeasM& o) { o.model.reset(); if (o.f.lin) o.model.reset(new LinearAnalyticMeasurementModelGaussianUncertainty((LinearAnalyticConditionalGaussian*)o.pdf.get())); else o.model.reset(new AnalyticMeasurementModelGaussianUncertainty(o.pdf.get())); }
// the caller changes parameters of a model it has already handed in
inline void settune(SysM& o, const Fun& f) { o.f = f; if (!f.lin) { ((NLPdf*)o.pdf.get())->f = f; return; } LinearAnalyticConditionalGaussian* p = (LinearAnalyticConditionalGaussian*)o.pdf.get(); LinearAnalyticSystemModelGaussianUncertainty* m = (LinearAnalyticSystemModelGaussianUncertainty*)o.model.get(); Sut sut; m->ASet(cm(f.A)); if (f.nu) m->BSet(cm(f.B)); p->AdditiveNoiseMuSet(cv(f.off)); p->AdditiveNoiseSigmaSet(csym(f.C)); }
inline void settune(MeasM& o, const Fun& f) { o.f = f; if (!f.lin) { ((NLPdf*)o.pdf.get())->f = f; return; } LinearAnalyticConditionalGaussian* p = (LinearAnalyticConditionalGaussian*)o.pdf.get(); LinearAnalyticMeasurementModelGaussianUncertainty* m = (LinearAnalyticMeasurementModelGaussianUncertainty*)o.model.get(); Sut sut; m->HSet(cm(f.A)); if (f.nu) m->JSet(cm(f.B)); p->AdditiveNoiseMuSet(cv(f.off)); p->AdditiveNoiseSigmaSet(csym(f.C)); }
inline Fun tuned(Sim& s, const Fun& now, const Fun& first, double a, double lo, double hi) { Fun f = now; switch (s.draw(5)) { case 0: f.A = vary(s, f.A, first.A, a); break; case 1: f.B = vary(s, f.B, first.B, 1); break; case 2: f.off = vary(s, f.off, first.off, 0.5); if (!f.lin) f.a = vary(s, f.a, first.a, 0.4); break; case 3: f.C = varyspd(s, f.C, first.C, lo, hi); break; default: f = first; } return f; }
// only the parameter that changed is set, the way a caller would
template <class MM> void retune(Sim& s, MM& o, const Fun& first, double a, double lo, double hi) { Fun f = tuned(s, o.f, first, a, lo, hi); LinearAnalyticConditionalGaussian* p = (LinearAnalyticConditionalGaussian*)o.pdf.get();
  if (!f.lin || s.draw(4) == 0) { settune(o, f); return; } bool dA = f.A.a != o.f.A.a, dB = f.B.a != o.f.B.a, dm = f.off != o.f.off, dC = f.C.a != o.f.C.a; o.f = f; Sut sut; if (dA) p->MatrixSet(0, cm(f.A)); if (dB) p->MatrixSet(1, cm(f.B)); if (dm) p->AdditiveNoiseMuSet(cv(f.off)); if (dC) p->AdditiveNoiseSigmaSet(csym(f.C)); }
inline ref::Belief belief(const Gaussian& g) { ref::Belief b; b.m = rv(g.ExpectedValueGet()); b.P = rm(g.CovarianceGet()); return b; }
inline void cmp_belief(Sim& s, const char* what, const ref::Belief& got, const ref::Belief& want, double rel) {
  double tm = rel * (1 + (double)ref::scale(want.m) + std::sqrt((double)ref::scale(want.P))), tp = rel * (1e-3 + (double)ref::scale(want.P)) ;
  if (got.m.size() != want.m.size() || got.P.r != want.P.r) s.fail("posterior-size", "%s: posterior has wrong dimension", what);
  for (size_t i = 0; i < want.m.size(); i++) if (!close((double)got.m[i], (double)want.m[i], tm)) s.fail("posterior-mean", "%s: mean %s, reference %s", what, str(got.m).c_str(), str(want.m).c_str());
  for (size_t i = 0; i < want.P.a.size(); i++) if (!close((double)got.P.a[i], (double)want.P.a[i], tp)) s.fail("posterior-cov", "%s: covariance %s, reference %s", what, str(got.P).c_str(), str(want.P).c_str());
}
}
#endif
