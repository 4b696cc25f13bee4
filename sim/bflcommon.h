#ifndef BFLCOMMON_H
#define BFLCOMMON_H
#include "simcore.h"
#include "ref.h"
#include <wrappers/matrix/matrix_wrapper.h>
#include <wrappers/matrix/vector_wrapper.h>
#include <wrappers/rng/rng.h>
#include <bfl_constants.h>
#include <pdf/gaussian.h>
#include <pdf/linearanalyticconditionalgaussian.h>
#include <pdf/analyticconditionalgaussian_additivenoise.h>
#include <model/linearanalyticsystemmodel_gaussianuncertainty.h>
#include <model/linearanalyticmeasurementmodel_gaussianuncertainty.h>
#include <model/analyticsystemmodel_gaussianuncertainty.h>
#include <model/analyticmeasurementmodel_gaussianuncertainty.h>
#include <memory>
namespace W {
using namespace MatrixWrapper;
using sim::Sim; using sim::Sut; using sim::WordStream; using sim::UseStream; using sim::Prng;
inline ColumnVector cv(const ref::V& v) { ColumnVector o((int)v.size()); for (size_t i = 0; i < v.size(); i++) o(i + 1) = (double)v[i]; return o; }
inline ref::V rv(const ColumnVector& v) { ref::V o(v.rows()); for (unsigned i = 0; i < v.rows(); i++) o[i] = v(i + 1); return o; }
inline Matrix cm(const ref::M& m) { Matrix o(m.r, m.c); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) o(i + 1, j + 1) = (double)m(i, j); return o; }
inline SymmetricMatrix csym(const ref::M& m) { SymmetricMatrix o(m.r); for (int i = 0; i < m.r; i++) for (int j = 0; j <= i; j++) { o(i + 1, j + 1) = (double)m(i, j); o(j + 1, i + 1) = (double)m(i, j); } return o; }
inline ref::M rm(const Matrix& m) { ref::M o(m.rows(), m.columns()); for (int i = 0; i < o.r; i++) for (int j = 0; j < o.c; j++) o(i, j) = m(i + 1, j + 1); return o; }
inline ref::M rm(const SymmetricMatrix& m) { ref::M o(m.rows(), m.columns()); for (int i = 0; i < o.r; i++) for (int j = 0; j < o.c; j++) o(i, j) = m(i + 1, j + 1); return o; }
// random model pieces; entries are rounded to doubles exactly representable in both worlds
inline ref::R q12(double v) { return (ref::R)(std::floor(v * 4096 + 0.5) / 4096); }
inline ref::M rmat(Sim& s, int r, int c, double a) { ref::M m(r, c); for (auto& x : m.a) x = q12(s.sym(a)); return m; }
inline ref::V rvec(Sim& s, int n, double a) { ref::V v(n); for (auto& x : v) x = q12(s.sym(a)); return v; }
inline ref::M rspd(Sim& s, int n, double lo, double hi, bool correlated) {
  ref::M d(n, n); for (int i = 0; i < n; i++) d(i, i) = q12(s.real(lo, hi)) + 1.0L / 4096;
  if (!correlated) return d;
  ref::M L = ref::eye(n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) L(i, j) = q12(s.sym(0.8));
  ref::M o = ref::sym(ref::mul(ref::mul(L, d), ref::tr(L))); for (auto& x : o.a) x = (ref::R)(double)x; return o;
}
// a next value for a parameter that now is `old`: the same again, one of its earlier values, one entry changed, or a new one
inline ref::V vary(Sim& s, const ref::V& old, const ref::V& earlier, double a) { ref::V v = old; switch (s.draw(6)) { case 0: return rvec(s, old.size(), a); case 1: return rvec(s, old.size(), a); case 2: case 3: if (v.size()) v[s.draw(v.size())] = q12(s.sym(a)); return v; case 4: return earlier; default: return old; } }
inline ref::M vary(Sim& s, const ref::M& old, const ref::M& earlier, double a) { ref::M v = old; switch (s.draw(6)) { case 0: return rmat(s, old.r, old.c, a); case 1: return rmat(s, old.r, old.c, a); case 2: case 3: if (v.a.size()) v.a[s.draw(v.a.size())] = q12(s.sym(a)); return v; case 4: return earlier; default: return old; } }
// same for a covariance: also only its off-diagonal part (scaled, or a sign flipped) or only one variance changed
inline ref::M varyspd(Sim& s, const ref::M& old, const ref::M& earlier, double lo, double hi) { ref::M v = old; int n = v.r; switch (s.draw(8)) { case 0: return rspd(s, n, lo, hi, true); case 1: return rspd(s, n, lo, hi, s.draw(2));
    case 2: { ref::R f = s.draw(17) / 16.0L; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) v(i, j) = (ref::R)(double)(v(i, j) * f); return v; }
    case 3: { int k = s.draw(n); for (int i = 0; i < n; i++) if (i != k) { v(i, k) = -v(i, k); v(k, i) = -v(k, i); } return v; }
    case 4: { int k = s.draw(n); v(k, k) = (ref::R)(double)(v(k, k) + q12(s.real(0, 0.5 * hi))); return v; }
    case 5: return earlier; case 6: return old; default: return rspd(s, n, lo, hi, true); } }
inline ref::V gaussvec(Prng& p, const ref::M& S) { // sample with covariance S (Cholesky)
  int n = S.r; ref::M L(n, n); for (int j = 0; j < n; j++) { ref::R t = S(j, j); for (int k = 0; k < j; k++) t -= L(j, k) * L(j, k); L(j, j) = std::sqrt((double)std::max<ref::R>(t, 0)); for (int i = j + 1; i < n; i++) { ref::R u = S(i, j); for (int k = 0; k < j; k++) u -= L(i, k) * L(j, k); L(i, j) = L(j, j) > 0 ? u / L(j, j) : 0; } }
  ref::V g(n); for (auto& x : g) x = p.gauss(); return ref::mul(L, g);
}
inline std::string str(const ref::V& v) { std::string o = "["; char b[32]; for (size_t i = 0; i < v.size(); i++) { snprintf(b, sizeof b, "%s%.9g", i ? " " : "", (double)v[i]); o += b; } return o + "]"; }
inline std::string str(const ref::M& m) { std::string o = "["; char b[32]; for (int i = 0; i < m.r; i++) { if (i) o += " ; "; for (int j = 0; j < m.c; j++) { snprintf(b, sizeof b, "%s%.9g", j ? " " : "", (double)m(i, j)); o += b; } } return o + "]"; }
inline bool close(double a, double b, double tol) { return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol; }
// hook run inside every harness model callback (re-entrant use of the library)
inline std::function<void()>*& model_cb_slot() { static thread_local std::function<void()>* f = 0; return f; }
inline void model_cb() { std::function<void()>*& f = model_cb_slot(); if (f) { std::function<void()>* k = f; f = 0; struct R { std::function<void()>*& f; std::function<void()>* k; ~R() { f = k; } } r = {f, k}; (*k)(); } }
inline void h(Sim& s, const ref::V& v) { for (auto x : v) s.h((double)x); }
inline void h(Sim& s, const ref::M& v) { for (auto x : v.a) s.h((double)x); }
}
#endif
