// Small executable reference models, independent of the library (own long double algebra).
#ifndef REF_H
#define REF_H
#include <vector>
#include <cmath>
#include <algorithm>
namespace ref {
typedef long double R;
typedef std::vector<R> V;
struct M {
  int r, c; std::vector<R> a;
  M() : r(0), c(0) {}
  M(int r_, int c_, R v = 0) : r(r_), c(c_), a((size_t)r_ * c_, v) {}
  R& operator()(int i, int j) { return a[(size_t)i * c + j]; }
  R operator()(int i, int j) const { return a[(size_t)i * c + j]; }
};
inline M eye(int n) { M m(n, n); for (int i = 0; i < n; i++) m(i, i) = 1; return m; }
inline M mul(const M& a, const M& b) { M o(a.r, b.c); for (int i = 0; i < a.r; i++) for (int k = 0; k < a.c; k++) { R v = a(i, k); for (int j = 0; j < b.c; j++) o(i, j) += v * b(k, j); } return o; }
inline M tr(const M& a) { M o(a.c, a.r); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) o(j, i) = a(i, j); return o; }
inline M add(const M& a, const M& b, R s = 1) { M o = a; for (size_t i = 0; i < o.a.size(); i++) o.a[i] += s * b.a[i]; return o; }
inline V mul(const M& a, const V& x) { V o(a.r, 0); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) o[i] += a(i, j) * x[j]; return o; }
inline V add(const V& a, const V& b, R s = 1) { V o = a; for (size_t i = 0; i < o.size(); i++) o[i] += s * b[i]; return o; }
inline R dot(const V& a, const V& b) { R s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
inline M sym(const M& a) { M o = a; for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) o(i, j) = (a(i, j) + a(j, i)) / 2; return o; }
inline M inv(const M& a0, R* det = 0) {
  int n = a0.r; M a = a0, b = eye(n); R d = 1;
  for (int k = 0; k < n; k++) {
    int p = k; for (int i = k + 1; i < n; i++) if (std::fabs((double)a(i, k)) > std::fabs((double)a(p, k))) p = i;
    if (p != k) { for (int j = 0; j < n; j++) { std::swap(a(p, j), a(k, j)); std::swap(b(p, j), b(k, j)); } d = -d; }
    R v = a(k, k); d *= v;
    for (int j = 0; j < n; j++) { a(k, j) /= v; b(k, j) /= v; }
    for (int i = 0; i < n; i++) if (i != k) { R f = a(i, k); if (f != 0) for (int j = 0; j < n; j++) { a(i, j) -= f * a(k, j); b(i, j) -= f * b(k, j); } }
  }
  if (det) *det = d;
  return b;
}
inline R mineig_ge(const M& a) { // smallest pivot of an LDL^T of a (>= 0 means PSD up to rounding)
  int n = a.r; M l = a; R mn = 1e300L;
  for (int k = 0; k < n; k++) { R d = l(k, k); mn = std::min(mn, d); if (d <= 0) return mn; for (int i = k + 1; i < n; i++) { R f = l(i, k) / d; for (int j = k; j < n; j++) l(i, j) -= f * l(k, j); } }
  return mn;
}
inline R gausspdf(const V& x, const V& mu, const M& S) { R det; M Si = inv(S, &det); V d = add(x, mu, -1); R q = dot(d, mul(Si, d)); return std::exp(-q / 2) / std::sqrt(std::pow(2 * 3.14159265358979323846264338L, (R)x.size()) * det); }

struct Belief { V m; M P; };
inline Belief kf_predict(const Belief& b, const V& fx, const M& F, const M& Q) { Belief o; o.m = fx; o.P = sym(add(mul(mul(F, b.P), tr(F)), Q)); return o; }
// correction with predicted measurement zp, Jacobian H, noise R, written in Joseph form (not the library's form)
inline Belief kf_correct(const Belief& b, const V& z, const V& zp, const M& H, const M& Rm) {
  M S = add(mul(mul(H, b.P), tr(H)), Rm); M K = mul(mul(b.P, tr(H)), inv(S));
  Belief o; o.m = add(b.m, mul(K, add(z, zp, -1)));
  M A = add(eye(b.P.r), mul(K, H), -1); o.P = sym(add(mul(mul(A, b.P), tr(A)), mul(mul(K, Rm), tr(K)))); return o;
}
inline R nis(const Belief& b, const V& z, const V& zp, const M& H, const M& Rm) { M S = add(mul(mul(H, b.P), tr(H)), Rm); V d = add(z, zp, -1); return dot(d, mul(inv(S), d)); }
inline R scale(const M& a) { R s = 0; for (R v : a.a) s = std::max(s, (R)std::fabs((double)v)); return s; }
inline R scale(const V& a) { R s = 0; for (R v : a) s = std::max(s, (R)std::fabs((double)v)); return s; }
}
#endif
