// Harness-defined conditional densities (the library's documented extension point) for the
// sample-based filters: every draw is recorded with the arguments it was conditioned on.
#ifndef PMODELS_H
#define PMODELS_H
#include "bflcommon.h"
#include <pdf/mcpdf.h>
#include <pdf/conditionalpdf.h>
#include <model/systemmodel.h>
#include <model/measurementmodel.h>
namespace W {
using namespace BFL;
typedef std::vector<double> Key;
template <class T> struct TT;
template <> struct TT<ColumnVector> {
  static Key key(const ColumnVector& v) { Key k; for (unsigned i = 1; i <= v.rows(); i++) k.push_back(v(i)); return k; }
  static ColumnVector mk(const Key& k) { ColumnVector v((int)k.size()); for (size_t i = 0; i < k.size(); i++) v(i + 1) = k[i]; return v; }
  static const bool cont = true; };
template <> struct TT<unsigned int> {
  static Key key(unsigned v) { return Key(1, (double)v); }
  static unsigned mk(const Key& k) { return (unsigned)k[0]; } static const bool cont = false; };
template <> struct TT<double> {
  static Key key(double v) { return Key(1, v); }
  static double mk(const Key& k) { return k[0]; } static const bool cont = true; };
template <> struct TT<int> {
  static Key key(int v) { return Key(1, (double)v); }
  static int mk(const Key& k) { return (int)k[0]; } static const bool cont = false; };
inline std::string str(const Key& v) { std::string o = "["; char b[32]; for (size_t i = 0; i < v.size(); i++) { snprintf(b, sizeof b, "%s%.9g", i ? " " : "", v[i]); o += b; } return o + "]"; }
struct Draw { Key parent, u, child; int by; };   // by: which density drew
// transition family: x' = a x + g u + b + noise ; discrete: state part moves, upper bits make values unique
struct Trans {
  int dim; double a, g, b, sd, floor; bool cont; int K; bool box;   // box: density exactly 1 on a unit cube (continuous), one certain successor (discrete)
  double dens(const Key& y, const Key& x, const Key& u) const {
    if (!cont) { int ys = ((int)y[0]) & 15, xs = ((int)x[0]) & 15; if (box) return ys == (xs + (u.size() ? ((int)u[0] & 3) : 0)) % K ? 1.0 : 0.0; int d = (ys - xs - (u.size() ? ((int)u[0] & 3) : 0) + 64) % K; return floor + 1.0 / (1 + d) + 0.01 * K; }
    if (box) { for (int i = 0; i < dim; i++) if (!(std::fabs(y[i] - mean(i, x, u)) <= 0.5)) return 0; return 1; }
    double q = 0; for (int i = 0; i < dim; i++) { double d = y[i] - mean(i, x, u); q += d * d; } return floor + std::exp(-q / (2 * sd * sd)) / sd; }
  double mean(int i, const Key& x, const Key& u) const { return a * x[i] + b + (u.size() ? g * u[i] : 0); }
  Key draw(const Key& x, const Key& u, Prng& p, uint32_t& ctr) const {
    if (!cont) { int xs = ((int)x[0]) & 15; int d = (int)(p.next() % (unsigned)K); if (box) d = 0; int ys = (xs + d + (u.size() ? ((int)u[0] & 3) : 0)) % K; ctr = (ctr + 1) & 0x3ffff; return Key(1, (double)(ctr * 16 + ys)); }
    Key y(dim); for (int i = 0; i < dim; i++) y[i] = box ? mean(i, x, u) + 0.999 * (p.uni() - 0.5) : mean(i, x, u) + sd * p.gauss(); return y; }
};
struct Lik { // likelihood of scalar z at x with optional sensor parameter
  double h, r, floor, sg; bool cont, bounded;
  double p(double z, const Key& x, const Key& sp) const {
    double floor = std::fabs(z) > 1e5 ? 0.0 : this->floor;   // such a reading is impossible everywhere
    double xv = cont ? x[0] : (double)(((int)x[0]) & 15); double e = z - h * xv - (sp.size() ? sg * sp[0] : 0);
    if (bounded) return std::fabs(e) < r ? 1.0 + 0.5 * e / r : floor;
    return floor + std::exp(-e * e / (2 * r * r)); }
};
struct Env { Prng noise; uint32_t ctr; std::vector<Draw> log; Env(uint64_t s) : noise(s), ctr(0) {} };
template <class T> struct TransPdf : public ConditionalPdf<T, T> {
  Trans t; Env* e; bool in; int id;
  TransPdf(const Trans& t_, bool in_, Env* e_) : ConditionalPdf<T, T>(t_.dim, in_ ? 2 : 1), t(t_), e(e_), in(in_), id(0) {}
  virtual TransPdf* Clone() const { return new TransPdf(*this); }
  Key X() const { return TT<T>::key(this->ConditionalArgumentGet(0)); }
  Key U() const { return in ? TT<T>::key(this->ConditionalArgumentGet(1)) : Key(); }
  virtual Probability ProbabilityGet(const T& y) const { sim::NoSut n; model_cb(); return t.dens(TT<T>::key(y), X(), U()); }
  virtual bool SampleFrom(Sample<T>& o, const SampleMthd = SampleMthd::DEFAULT, void* = NULL) const {
    sim::NoSut n; model_cb(); Draw d; d.parent = X(); d.u = U(); d.child = t.draw(d.parent, d.u, e->noise, e->ctr); d.by = id; o.ValueSet(TT<T>::mk(d.child)); e->log.push_back(d); return true; }
  virtual bool SampleFrom(std::vector<Sample<T> >& l, unsigned n, const SampleMthd m = SampleMthd::DEFAULT, void* a = NULL) const { l.resize(n); for (auto& x : l) SampleFrom(x, m, a); return true; }
  virtual T ExpectedValueGet() const { return TT<T>::mk(X()); }
  virtual SymmetricMatrix CovarianceGet() const { SymmetricMatrix m(t.dim); m = 0.0; return m; }
};
template <class MV, class SV> struct LikPdf : public ConditionalPdf<MV, SV> {
  Lik l; bool sp; Env* e; mutable uint64_t calls;
  LikPdf(const Lik& l_, bool sp_, Env* e_ = NULL) : ConditionalPdf<MV, SV>(1, sp_ ? 2 : 1), l(l_), sp(sp_), e(e_), calls(0) {}
  virtual LikPdf* Clone() const { return new LikPdf(*this); }
  virtual Probability ProbabilityGet(const MV& z) const { sim::NoSut n; calls++; model_cb(); return l.p(TT<MV>::key(z)[0], TT<SV>::key(this->ConditionalArgumentGet(0)), sp ? TT<SV>::key(this->ConditionalArgumentGet(1)) : Key()); }
  virtual bool SampleFrom(Sample<MV>& o, const SampleMthd = SampleMthd::DEFAULT, void* = NULL) const { o.ValueSet(TT<MV>::mk(Key(1, 0.0))); return true; }
  virtual MV ExpectedValueGet() const { return TT<MV>::mk(Key(1, 0.0)); }
  virtual SymmetricMatrix CovarianceGet() const { SymmetricMatrix m(1); m = 0.0; return m; }
};
struct P { Key x; double w; bool operator<(const P& o) const { return x != o.x ? x < o.x : w < o.w; } };
typedef std::vector<P> Parts;
template <class T> Parts parts(const MCPdf<T>& m) { Parts o; const std::vector<WeightedSample<T> >& l = m.ListOfSamplesGet(); for (size_t i = 0; i < l.size(); i++) { P p; p.x = TT<T>::key(l[i].ValueGet()); p.w = l[i].WeightGet(); o.push_back(p); } return o; }
template <class T> std::vector<WeightedSample<T> > wsamples(const Parts& ps, int dim) { std::vector<WeightedSample<T> > v; for (auto& p : ps) { WeightedSample<T> w(dim); w.ValueSet(TT<T>::mk(p.x)); w.WeightSet(p.w); v.push_back(w); } return v; }
inline Parts normalised(Parts p) { long double s = 0; for (auto& x : p) s += x.w; for (auto& x : p) x.w = (double)(x.w / s); return p; }
inline double ess(const Parts& p) { long double s = 0, q = 0; for (auto& x : p) s += x.w; for (auto& x : p) q += (x.w / s) * (x.w / s); return (double)(1 / q); }
inline void hparts(Sim& s, const Parts& p) { for (auto& x : p) { for (double v : x.x) s.h(v); s.h(x.w); } }
inline void valid_parts(Sim& s, const char* what, const Parts& p, size_t n) {
  if (p.size() != n) s.fail("particle-count", "%s: %zu particles, expected %zu", what, p.size(), n);
  long double t = 0; for (auto& x : p) { if (!(x.w >= 0) || !std::isfinite(x.w)) s.fail("bad-weight", "%s: particle weight %g", what, x.w); t += x.w; }
  if (std::fabs((double)t - 1) > 1e-9) s.fail("weights-not-normalised", "%s: weights sum to %.12g", what, (double)t);
}
inline void cmp_parts(Sim& s, const char* what, const char* cls, Parts got, Parts want, double tol = 1e-11) {
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  if (got.size() != want.size()) s.fail("particle-count", "%s: %zu particles, expected %zu", what, got.size(), want.size());
  for (size_t i = 0; i < got.size(); i++) {
    if (got[i].x != want[i].x) s.fail(std::string(cls) + "-value", "%s: particle values differ: got %s, expected %s", what, str(got[i].x).c_str(), str(want[i].x).c_str());
    if (!close(got[i].w, want[i].w, tol)) s.fail(std::string(cls) + "-weight", "%s: particle %s has weight %.12g, expected %.12g", what, str(got[i].x).c_str(), got[i].w, want[i].w); }
}
// Chernoff bound on the log-probability that Binomial(n,p) is as far from np as c
inline double binom_evidence(double n, double p, double c) {
  if (n <= 0) return 0; const double grain = 3e-10; /* uniform numbers come in steps of 2^-32 */ if (p > 0 && p < 1e-3 && c > n * p) p += grain; if (p > 0.999 && c < n * p) p = std::min(p, 1.0) - grain;
  if (p <= 0) return c > 0 ? 1e9 : 0; if (p >= 1) return c < n ? 1e9 : 0;
  double f = c / n, k = 0; if (f > 0) k += f * std::log(f / p); if (f < 1) k += (1 - f) * std::log((1 - f) / (1 - p)); return n * k; }
inline Trans mktrans(Sim& s, bool cont, int dim) { Trans t; t.cont = cont; t.dim = dim; t.K = s.range(2, 9); t.a = s.real(0.5, 1.0); t.g = s.real(0.2, 1); t.b = s.sym(1); t.sd = s.real(0.1, 1.5); t.floor = 1e-3; t.box = false; return t; }
inline Lik mklik(Sim& s, bool cont) { Lik l; l.cont = cont; l.h = s.real(0.3, 1.5); l.r = s.real(0.4, 3); l.floor = s.draw(3) ? 1e-4 : 0.0; l.sg = s.real(0.3, 1); l.bounded = s.chance(300); return l; }
template <class T> Key rkey(Sim& s, int dim, double a) { Key k(dim); for (auto& v : k) v = TT<T>::cont ? s.sym(a) : (double)s.draw(9); return k; }
}
#endif
