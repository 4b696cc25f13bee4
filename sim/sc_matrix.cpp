// Matrix and vector objects over histories of operations: results, targets, aliasing operands, bystanders, failed allocations.
#include "bflcommon.h"
using namespace W; using sim::NoSut;
namespace {
ref::V rr(const RowVector& v) { ref::V o(v.columns()); for (unsigned i = 0; i < v.columns(); i++) o[i] = v(i + 1); return o; }
ref::M row(const ref::V& v) { ref::M o(1, v.size()); for (size_t i = 0; i < v.size(); i++) o(0, i) = v[i]; return o; }
ref::M col(const ref::V& v) { ref::M o(v.size(), 1); for (size_t i = 0; i < v.size(); i++) o(i, 0) = v[i]; return o; }
ref::V flat(const ref::M& m) { return ref::V(m.a.begin(), m.a.end()); }
ref::M smap(const ref::M& m, int op, ref::R k) { ref::M o = m; for (auto& x : o.a) x = op == 0 ? x + k : op == 1 ? x - k : op == 2 ? x * k : x / k; return o; }
ref::V smap(const ref::V& m, int op, ref::R k) { ref::V o = m; for (auto& x : o) x = op == 0 ? x + k : op == 1 ? x - k : op == 2 ? x * k : x / k; return o; }
ref::M part(const ref::M& m, int i, int k, int j, int l) { ref::M o(k - i + 1, l - j + 1); for (int a = i; a <= k; a++) for (int b = j; b <= l; b++) o(a - i, b - j) = m(a - 1, b - 1); return o; }
ref::V part(const ref::V& v, int j, int l) { return ref::V(v.begin() + j - 1, v.begin() + l); }
ref::M lower(const ref::M& m) { ref::M o = m; for (int i = 0; i < m.r; i++) for (int j = i + 1; j < m.c; j++) o(i, j) = m(j, i); return o; }
ref::M asdouble(const ref::M& m) { ref::M o = m; for (auto& x : o.a) x = (ref::R)(double)x; return o; }
RowVector crow(const ref::V& v) { RowVector o((int)v.size()); for (size_t i = 0; i < v.size(); i++) o(i + 1) = (double)v[i]; return o; }
ref::R nrm(const ref::M& a) { ref::R s = 0; for (auto x : a.a) s += x * x; return std::sqrt(s); }
struct File { std::vector<Matrix> m; std::vector<ref::M> rm; std::vector<SymmetricMatrix> s; std::vector<ref::M> rs; std::vector<ColumnVector> c; std::vector<ref::V> rc; std::vector<RowVector> r; std::vector<ref::V> rrv; };
struct H { Sim& s; File f; const char* op; bool oom; long k;
  void eq(const char* what, const ref::V& g, const ref::V& w, double tol) { if (g.size() != w.size()) s.fail("size", "%s: %s has %d elements, expected %d", op, what, (int)g.size(), (int)w.size()); for (size_t i = 0; i < w.size(); i++) if (!(std::isfinite((double)g[i]) && std::fabs((double)(g[i] - w[i])) <= tol)) s.fail("value", "%s: %s is %s, expected %s", op, what, str(g).c_str(), str(w).c_str()); }
  void eq(const char* what, const ref::M& g, const ref::M& w, double tol) { if (g.r != w.r || g.c != w.c) s.fail("size", "%s: %s is %dx%d, expected %dx%d", op, what, g.r, g.c, w.r, w.c); for (size_t i = 0; i < w.a.size(); i++) if (!(std::isfinite((double)g.a[i]) && std::fabs((double)(g.a[i] - w.a[i])) <= tol)) s.fail("value", "%s: %s is %s, expected %s", op, what, str(g).c_str(), str(w).c_str()); }
  void eq(const char* what, double g, ref::R w, double tol) { if (!(std::isfinite(g) && std::fabs(g - (double)w) <= tol)) s.fail("value", "%s: %s is %.17g, expected %.17g", op, what, g, (double)w); }
  template <class T> double tol(const T& w, ref::R mag = 0) { return 1e-13 * (double)(1e-3L + ref::scale(w) + mag); }
  // every register holds exactly what was last put into it
  void all() { NoSut n; char b[32]; for (size_t i = 0; i < f.m.size(); i++) { snprintf(b, sizeof b, "matrix %d", (int)i); if (f.m[i].rows() != (unsigned)f.rm[i].r || f.m[i].columns() != (unsigned)f.rm[i].c || f.m[i].size() != f.m[i].rows()) s.fail("size", "%s: %s reports %ux%u", op, b, f.m[i].rows(), f.m[i].columns()); eq(b, W::rm(f.m[i]), f.rm[i], 0); } for (size_t i = 0; i < f.s.size(); i++) { snprintf(b, sizeof b, "symmetric matrix %d", (int)i); eq(b, W::rm(f.s[i]), f.rs[i], 0); } for (size_t i = 0; i < f.c.size(); i++) { snprintf(b, sizeof b, "column vector %d", (int)i); if (f.c[i].columns() != 1) s.fail("size", "%s: %s reports %u columns", op, b, f.c[i].columns()); eq(b, rv(f.c[i]), f.rc[i], 0); } for (size_t i = 0; i < f.r.size(); i++) { snprintf(b, sizeof b, "row vector %d", (int)i); if (f.r[i].rows() != 1) s.fail("size", "%s: %s reports %u rows", op, b, f.r[i].rows()); eq(b, rr(f.r[i]), f.rrv[i], 0); } }
  void mset(int i, const ref::M& v) { f.rm[i] = asdouble(v); f.m[i] = cm(v); } void sset(int i, const ref::M& v) { f.rs[i] = asdouble(lower(v)); f.s[i] = csym(f.rs[i]); } void cset(int i, const ref::V& v) { f.rc[i] = v; for (auto& x : f.rc[i]) x = (ref::R)(double)x; f.c[i] = cv(v); } void rset(int i, const ref::V& v) { f.rrv[i] = v; for (auto& x : f.rrv[i]) x = (ref::R)(double)x; f.r[i] = crow(v); }
  // evaluate an expression; with an injected allocation failure it may throw, and is then evaluated again
  template <class F> auto ev(F fn) -> decltype(fn()) { if (oom) { oom = false; sim::arm_alloc(k); try { auto v = [&]() { Sut t; return fn(); }(); bool fired = sim::disarm_alloc(); if (fired) s.fail("swallowed", "%s: an allocation failed and nobody noticed", op); return v; } catch (const std::bad_alloc&) { sim::disarm_alloc(); s.fault("allocation_failed"); s.ev("oom"); all(); } catch (const sim::Violation&) { throw; } catch (const std::exception& x) { sim::disarm_alloc(); s.fail("wrong-exception", "%s: failed allocation surfaced as '%s'", op, x.what()); } } Sut t; return fn(); }
};
int pick(Sim& s, const std::vector<int>& v) { return v.empty() ? -1 : v[s.draw(v.size())]; }
template <class P> int pick(Sim& s, int n, P p) { std::vector<int> v; for (int i = 0; i < n; i++) if (p(i)) v.push_back(i); return pick(s, v); }
ref::M mat(Sim& s, int r, int c) { switch (s.draw(6)) { case 0: { ref::M m(r, c); ref::V a = rvec(s, r, 2), b = rvec(s, c, 2); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = a[i] * b[j]; return m; } case 1: { ref::M m = rmat(s, r, c, 2); int z = s.draw(r); for (int j = 0; j < c; j++) m(z, j) = 0; if (s.draw(2)) for (auto& x : m.a) if (s.draw(2)) x = 0; return m; } case 2: { ref::M m(r, c); std::vector<int> p; for (int i = 0; i < c; i++) p.push_back(i); for (int i = c - 1; i > 0; i--) std::swap(p[i], p[s.draw(i + 1)]); for (int i = 0; i < r && i < c; i++) m(i, p[i]) = q12(s.real(0.5, 2)) * (s.draw(2) ? 1 : -1); return m; } case 3: { ref::M m = rmat(s, r, c, 2); ref::R k = s.draw(2) ? 1024 : 1.0L / 1024; for (auto& x : m.a) x *= k; return m; } default: return rmat(s, r, c, 2); } }
}
SCENARIO(C18, 2) {
  static const char* T[] = {"fill", "product", "sum", "difference", "scalar", "compound", "compound scalar", "transpose", "inverse", "determinant", "sub", "row and column copies", "resize", "assign", "comparison", "convert", "cholesky", "svd", "pseudoinverse", "matrix times vector", "outer and inner product", "concatenation", "element", "construct", "copy"};
  H h{s, File(), "start", false, 0}; File& f = h.f; int nr = s.range(1, 4), dmax = s.range(1, 6);
  for (int i = 0; i < nr; i++) { int d = s.range(1, dmax), e = s.draw(2) ? d : s.range(1, dmax); f.m.push_back(Matrix()); f.rm.push_back(ref::M(0, 0)); f.s.push_back(SymmetricMatrix()); f.rs.push_back(ref::M(0, 0)); f.c.push_back(ColumnVector()); f.rc.push_back(ref::V()); f.r.push_back(RowVector()); f.rrv.push_back(ref::V()); h.mset(i, mat(s, d, e)); h.sset(i, rspd(s, d, 0.1, 3, s.draw(2))); h.cset(i, rvec(s, d, 2)); h.rset(i, rvec(s, d, 2)); }
  h.all(); unsigned poom = s.config >= 1 && s.draw(2) ? 200 : 0; int steps = s.range(1, 40); std::vector<int> menu; if (s.draw(2)) { int n = s.range(1, 6); for (int i = 0; i < n; i++) menu.push_back(s.draw(25)); }
  for (int t = 0; t < steps; t++) { s.simtime += 1; int op = menu.empty() ? s.draw(25) : menu[s.draw(menu.size())]; h.op = T[op]; h.oom = poom && s.chance(poom); h.k = s.range(1, 4); s.ev(T[op], "#%d", t);
    int a = s.draw(nr), b = s.draw(nr), d = s.draw(nr), kind = s.draw(4);   // operands and destination: may coincide
    switch (op) {
    case 0: { int r = s.range(1, dmax), c = s.draw(2) ? r : s.range(1, dmax); if (kind == 0) h.mset(d, mat(s, r, c)); else if (kind == 1) h.sset(d, s.draw(2) ? rspd(s, r, 0.1, 3, s.draw(2)) : mat(s, r, r)); else if (kind == 2) h.cset(d, rvec(s, r, 2)); else h.rset(d, rvec(s, r, 2)); break; }
    case 1: { bool sa = kind & 1, sb = kind & 2; const ref::M A = sa ? f.rs[a] : f.rm[a]; b = pick(s, nr, [&](int i) { return (sb ? f.rs[i] : f.rm[i]).r == A.c; }); if (b < 0) break; const ref::M B = sb ? f.rs[b] : f.rm[b]; if (!sa && sb) break; if (!sb && !sa && a == b) s.probe("aliased"); ref::M W = ref::mul(A, B); Matrix g = h.ev([&]() { return sa ? (sb ? f.s[a] * f.s[b] : f.s[a] * f.m[b]) : f.m[a] * f.m[b]; }); h.eq("result", rm(g), W, h.tol(W, A.c * ref::scale(A) * ref::scale(B))); Sut u; if (d == a && !sa) s.probe("aliased"); if (sa) { if (sb) f.m[d] = f.s[a] * f.s[b]; else f.m[d] = f.s[a] * f.m[b]; } else f.m[d] = f.m[a] * f.m[b]; NoSut n; h.eq("destination", rm(f.m[d]), rm(g), 0); f.rm[d] = rm(f.m[d]); break; }
    case 2: case 3: { ref::R sg = op == 2 ? 1 : -1; if (kind == 0 || kind == 1) { bool sa = kind == 1, sb = sa && s.draw(2); const ref::M A = sa ? f.rs[a] : f.rm[a]; b = pick(s, nr, [&](int i) { const ref::M& B = sb ? f.rs[i] : f.rm[i]; return B.r == A.r && B.c == A.c; }); if (b < 0) break; ref::M W = ref::add(A, sb ? f.rs[b] : f.rm[b], sg); if (sa && sb) { SymmetricMatrix g = h.ev([&]() { return sg > 0 ? f.s[a] + f.s[b] : f.s[a] - f.s[b]; }); h.eq("result", rm(g), W, h.tol(W)); { Sut u; f.s[d] = g; } f.rs[d] = rm(f.s[d]); } else { Matrix g = h.ev([&]() { return sa ? (sg > 0 ? f.s[a] + f.m[b] : f.s[a] - f.m[b]) : (sg > 0 ? f.m[a] + f.m[b] : f.m[a] - f.m[b]); }); h.eq("result", rm(g), W, h.tol(W)); { Sut u; f.m[d] = g; } f.rm[d] = rm(f.m[d]); } }
      else if (kind == 2) { b = pick(s, nr, [&](int i) { return f.rc[i].size() == f.rc[a].size(); }); if (b < 0) break; ref::V W = ref::add(f.rc[a], f.rc[b], sg); ColumnVector g = h.ev([&]() { return sg > 0 ? f.c[a] + f.c[b] : f.c[a] - f.c[b]; }); h.eq("result", rv(g), W, h.tol(W)); { Sut u; f.c[d] = g; } f.rc[d] = rv(f.c[d]); }
      else { b = pick(s, nr, [&](int i) { return f.rrv[i].size() == f.rrv[a].size(); }); if (b < 0) break; ref::V W = ref::add(f.rrv[a], f.rrv[b], sg); RowVector g = h.ev([&]() { return sg > 0 ? f.r[a] + f.r[b] : f.r[a] - f.r[b]; }); h.eq("result", rr(g), W, h.tol(W)); { Sut u; f.r[d] = g; } f.rrv[d] = rr(f.r[d]); } break; }
    case 4: { int o = s.draw(4); double x = (double)q12(s.real(0.25, 3)) * (s.draw(2) ? 1 : -1);
      if (kind == 0) { ref::M W = smap(f.rm[a], o, x); Matrix g = h.ev([&]() { return o == 0 ? f.m[a] + x : o == 1 ? f.m[a] - x : o == 2 ? f.m[a] * x : f.m[a] / x; }); h.eq("result", rm(g), W, h.tol(W)); { Sut u; f.m[d] = g; } f.rm[d] = rm(f.m[d]); }
      else if (kind == 1) { ref::M W = smap(f.rs[a], o, x); SymmetricMatrix g = h.ev([&]() { return o == 0 ? f.s[a] + x : o == 1 ? f.s[a] - x : o == 2 ? f.s[a] * x : f.s[a] / x; }); h.eq("result", rm(g), W, h.tol(W)); { Sut u; f.s[d] = g; } f.rs[d] = rm(f.s[d]); }
      else if (kind == 2) { ref::V W = smap(f.rc[a], o, x); ColumnVector g = h.ev([&]() { return o == 0 ? f.c[a] + x : o == 1 ? f.c[a] - x : o == 2 ? f.c[a] * x : f.c[a] / x; }); h.eq("result", rv(g), W, h.tol(W)); { Sut u; f.c[d] = g; } f.rc[d] = rv(f.c[d]); }
      else { ref::V W = smap(f.rrv[a], o, x); RowVector g = h.ev([&]() { return o == 0 ? f.r[a] + x : o == 1 ? f.r[a] - x : o == 2 ? f.r[a] * x : f.r[a] / x; }); h.eq("result", rr(g), W, h.tol(W)); { Sut u; f.r[d] = g; } f.rrv[d] = rr(f.r[d]); } break; }
    case 5: { bool plus = s.draw(2); ref::R sg = plus ? 1 : -1; if (kind == 0) { b = pick(s, nr, [&](int i) { return f.rm[i].r == f.rm[d].r && f.rm[i].c == f.rm[d].c; }); if (b == d) s.probe("aliased"); ref::M W = ref::add(f.rm[d], f.rm[b], sg); { Sut u; Matrix* p = plus ? &(f.m[d] += f.m[b]) : &(f.m[d] -= f.m[b]); if (p != &f.m[d]) { NoSut n; s.fail("value", "%s does not return its target", h.op); } } h.eq("target", rm(f.m[d]), W, h.tol(W)); f.rm[d] = rm(f.m[d]); }
      else if (kind == 1) { bool sm = s.draw(3) == 0; b = pick(s, nr, [&](int i) { return f.rs[i].r == f.rs[d].r; }); if (b == d) s.probe("aliased"); ref::M W = ref::add(f.rs[d], f.rs[b], sg); { Sut u; if (sm) { Matrix x(f.s[b]); if (plus) f.s[d] += x; else f.s[d] -= x; } else { SymmetricMatrix* p = plus ? &(f.s[d] += f.s[b]) : &(f.s[d] -= f.s[b]); if (p != &f.s[d]) { NoSut n; s.fail("value", "%s does not return its target", h.op); } } } h.eq("target", rm(f.s[d]), W, h.tol(W)); f.rs[d] = rm(f.s[d]); }
      else if (kind == 2) { b = pick(s, nr, [&](int i) { return f.rc[i].size() == f.rc[d].size(); }); ref::V W = ref::add(f.rc[d], f.rc[b], sg); { Sut u; if (plus) f.c[d] += f.c[b]; else f.c[d] -= f.c[b]; } h.eq("target", rv(f.c[d]), W, h.tol(W)); f.rc[d] = rv(f.c[d]); }
      else { b = pick(s, nr, [&](int i) { return f.rrv[i].size() == f.rrv[d].size(); }); ref::V W = ref::add(f.rrv[d], f.rrv[b], sg); { Sut u; if (plus) f.r[d] += f.r[b]; else f.r[d] -= f.r[b]; } h.eq("target", rr(f.r[d]), W, h.tol(W)); f.rrv[d] = rr(f.r[d]); } break; }
    case 6: { int o = s.draw(4); double x = (double)q12(s.real(0.25, 3)) * (s.draw(2) ? 1 : -1);
      if (kind == 0) { ref::M W = smap(f.rm[d], o, x); { Sut u; if (o == 0) f.m[d] += x; else if (o == 1) f.m[d] -= x; else if (o == 2) f.m[d] *= x; else f.m[d] /= x; } h.eq("target", rm(f.m[d]), W, h.tol(W)); f.rm[d] = rm(f.m[d]); }
      else if (kind == 1) { ref::M W = smap(f.rs[d], o, x); { Sut u; if (o == 0) f.s[d] += x; else if (o == 1) f.s[d] -= x; else if (o == 2) f.s[d] *= x; else f.s[d] /= x; } h.eq("target", rm(f.s[d]), W, h.tol(W)); f.rs[d] = rm(f.s[d]); }
      else if (kind == 2) { ref::V W = smap(f.rc[d], o, x); { Sut u; if (o == 0) f.c[d] += x; else if (o == 1) f.c[d] -= x; else if (o == 2) f.c[d] *= x; else f.c[d] /= x; } h.eq("target", rv(f.c[d]), W, h.tol(W)); f.rc[d] = rv(f.c[d]); }
      else { ref::V W = smap(f.rrv[d], o, x); { Sut u; if (o == 0) f.r[d] += x; else if (o == 1) f.r[d] -= x; else if (o == 2) f.r[d] *= x; else f.r[d] /= x; } h.eq("target", rr(f.r[d]), W, h.tol(W)); f.rrv[d] = rr(f.r[d]); } break; }
    case 7: { if (kind == 0) { ref::M W = ref::tr(f.rm[a]); Matrix g = h.ev([&]() { return f.m[a].transpose(); }); h.eq("result", rm(g), W, 0); { Sut u; f.m[d] = f.m[a].transpose(); } f.rm[d] = rm(f.m[d]); h.eq("destination", f.rm[d], W, 0); } else if (kind == 1) { SymmetricMatrix g = h.ev([&]() { return f.s[a].transpose(); }); h.eq("result", rm(g), f.rs[a], 0); } else if (kind == 2) { RowVector g = h.ev([&]() { return f.c[a].transpose(); }); h.eq("result", rr(g), f.rc[a], 0); { Sut u; f.r[d] = g; } f.rrv[d] = rr(f.r[d]); } else { ColumnVector g = h.ev([&]() { return f.r[a].transpose(); }); h.eq("result", rv(g), f.rrv[a], 0); { Sut u; f.c[d] = g; } f.rc[d] = rv(f.c[d]); } break; }
    case 8: { bool sy = kind & 1; const ref::M A = sy ? f.rs[a] : f.rm[a]; if (A.r != A.c) break; ref::R det = 0; ref::M W; { ref::M X = A; W = ref::inv(X, &det); } ref::R cond = 0; bool fin = det != 0; for (auto x : W.a) if (!std::isfinite((double)x)) fin = false; if (fin) cond = nrm(A) * nrm(W); if (!fin || cond > 1e7) { s.probe("ill_conditioned"); break; } double tl = 1e-14 * (double)(cond * cond > 1e12 ? 1e12L : cond * cond) * A.r * A.r * (double)ref::scale(W); if (sy) { SymmetricMatrix g = h.ev([&]() { return f.s[a].inverse(); }); h.eq("result", rm(g), W, tl); if (ref::scale(W) < 1e4) { ref::M G = rm(g); h.sset(d, lower(G)); } } else { Matrix g = h.ev([&]() { return f.m[a].inverse(); }); h.eq("result", rm(g), W, tl); if (ref::scale(W) < 1e4) { { Sut u; f.m[d] = f.m[a].inverse(); } f.rm[d] = rm(f.m[d]); } } break; }
    case 9: { bool sy = kind & 1; const ref::M A = sy ? f.rs[a] : f.rm[a]; if (A.r != A.c) break; ref::R det = 1; { ref::M L = A; int n = A.r; for (int i = 0; i < n; i++) { int p = i; for (int j = i + 1; j < n; j++) if (std::fabs((double)L(j, i)) > std::fabs((double)L(p, i))) p = j; if (L(p, i) == 0) { det = 0; break; } if (p != i) { det = -det; for (int j = 0; j < n; j++) std::swap(L(i, j), L(p, j)); } det *= L(i, i); for (int j = i + 1; j < n; j++) { ref::R q = L(j, i) / L(i, i); for (int l = i; l < n; l++) L(j, l) -= q * L(i, l); } } } ref::R had = 1; for (int i = 0; i < A.r; i++) { ref::R q = 0; for (int j = 0; j < A.c; j++) q += A(i, j) * A(i, j); had *= std::sqrt(q); } if (det == 0) s.probe("singular"); double g = h.ev([&]() { return sy ? f.s[a].determinant() : f.m[a].determinant(); }); h.eq("result", g, det, 1e-12 * (double)had); break; }
    case 10: { if (kind < 2) { const ref::M A = kind ? f.rs[a] : f.rm[a]; int i = s.range(1, A.r), k = s.range(i, A.r), j = s.range(1, A.c), l = s.range(j, A.c); ref::M W = part(A, i, k, j, l); Matrix g = h.ev([&]() { return kind ? f.s[a].sub(i, k, j, l) : f.m[a].sub(i, k, j, l); }); h.eq("result", rm(g), W, 0); Sut u; if (kind) f.m[d] = f.s[a].sub(i, k, j, l); else f.m[d] = f.m[a].sub(i, k, j, l); f.rm[d] = rm(f.m[d]); NoSut n; h.eq("destination", f.rm[d], W, 0); } else if (kind == 2) { int n = f.rc[a].size(), j = s.range(1, n), l = s.range(j, n); ColumnVector g = h.ev([&]() { return f.c[a].sub(j, l); }); h.eq("result", rv(g), part(f.rc[a], j, l), 0); { Sut u; f.c[d] = g; } f.rc[d] = rv(g); } else { int n = f.rrv[a].size(), j = s.range(1, n), l = s.range(j, n); RowVector g = h.ev([&]() { return f.r[a].sub(j, l); }); h.eq("result", rr(g), part(f.rrv[a], j, l), 0); { Sut u; f.r[d] = g; } f.rrv[d] = rr(g); } break; }
    case 11: { if (kind == 0) { int i = s.range(1, f.rm[a].r); RowVector g = h.ev([&]() { return f.m[a].rowCopy(i); }); h.eq("row", rr(g), flat(part(f.rm[a], i, i, 1, f.rm[a].c)), 0); { Sut u; f.r[d] = g; } f.rrv[d] = rr(g); } else if (kind == 1) { int i = s.range(1, f.rs[a].r); RowVector g = h.ev([&]() { return f.s[a].rowCopy(i); }); h.eq("row", rr(g), flat(part(f.rs[a], i, i, 1, f.rs[a].c)), 0); { Sut u; f.r[d] = g; } f.rrv[d] = rr(g); } else { int j = s.range(1, f.rm[a].c); ColumnVector g = h.ev([&]() { return f.m[a].columnCopy(j); }); h.eq("column", rv(g), flat(part(f.rm[a], 1, f.rm[a].r, j, j)), 0); { Sut u; f.c[d] = g; } f.rc[d] = rv(g); } break; }
    case 12: { int r = s.range(1, dmax), c = s.range(1, dmax); bool keep = s.draw(2); if (kind == 0) { { Sut u; f.m[d].resize(r, c, keep); } if (f.m[d].rows() != (unsigned)r || f.m[d].columns() != (unsigned)c) s.fail("size", "resized to %dx%d, is %ux%u", r, c, f.m[d].rows(), f.m[d].columns()); int p = std::min(r, f.rm[d].r), q = std::min(c, f.rm[d].c); if (keep) { ref::M g(p, q); for (int i = 0; i < p; i++) for (int j = 0; j < q; j++) g(i, j) = f.m[d](i + 1, j + 1); h.eq("kept part", g, part(f.rm[d], 1, p, 1, q), 0); } h.mset(d, mat(s, r, c)); }
      else if (kind == 1) { { Sut u; f.s[d].resize(r, keep); } if (f.s[d].rows() != (unsigned)r || f.s[d].columns() != (unsigned)r) s.fail("size", "resized to %d, is %ux%u", r, f.s[d].rows(), f.s[d].columns()); int p = std::min(r, f.rs[d].r); if (keep) { ref::M g(p, p); for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) g(i, j) = f.s[d](i + 1, j + 1); h.eq("kept part", g, part(f.rs[d], 1, p, 1, p), 0); } for (int i = 1; i <= r; i++) for (int j = 1; j <= i; j++) { double x = (double)q12(s.sym(2)); f.s[d](i, j) = x; f.s[d](j, i) = x; } f.rs[d] = rm(f.s[d]); }
      else if (kind == 2) { { Sut u; f.c[d].resize(r); } if (f.c[d].rows() != (unsigned)r) s.fail("size", "resized to %d, is %u", r, f.c[d].rows()); for (int i = 1; i <= r; i++) f.c[d](i) = i; f.rc[d].resize(r); for (int i = 0; i < r; i++) f.rc[d][i] = i + 1; }
      else { { Sut u; f.r[d].resize(r); } if (f.r[d].columns() != (unsigned)r) s.fail("size", "resized to %d, is %u", r, f.r[d].columns()); for (int i = 1; i <= r; i++) f.r[d](i) = i; f.rrv[d].resize(r); for (int i = 0; i < r; i++) f.rrv[d][i] = i + 1; } break; }
    case 13: { double x = (double)q12(s.sym(2)); int n = s.range(1, dmax); if (kind == 0) { { Sut u; f.m[d] = x; } for (auto& y : f.rm[d].a) y = x; } else if (kind == 1) { { Sut u; f.s[d] = x; } for (auto& y : f.rs[d].a) y = x; } else if (kind == 2) { if (s.draw(2)) { Sut u; f.c[d].assign(n, x); NoSut m; f.rc[d].assign(n, x); } else { Sut u; f.c[d] = x; for (auto& y : f.rc[d]) y = x; } } else { if (s.draw(2)) { Sut u; f.r[d].assign(n, x); NoSut m; f.rrv[d].assign(n, x); } else { Sut u; f.r[d] = x; for (auto& y : f.rrv[d]) y = x; } } break; }
    case 14: { if (s.draw(2)) { if (kind == 0) { ref::M v = f.rm[a]; if (s.draw(2)) v.a[s.draw(v.a.size())] += 1.0L / 4096; h.mset(b, v); } else if (kind == 1) h.sset(b, f.rs[a]); else if (kind == 2) { ref::V v = f.rc[a]; if (s.draw(2)) v[s.draw(v.size())] += 1.0L / 4096; h.cset(b, v); } else { ref::V v = f.rrv[a]; if (s.draw(2)) v[s.draw(v.size())] += 1.0L / 4096; h.rset(b, v); } }
      bool w = kind == 0 ? (f.rm[a].r == f.rm[b].r && f.rm[a].c == f.rm[b].c && f.rm[a].a == f.rm[b].a) : kind == 1 ? f.rs[a].a == f.rs[b].a : kind == 2 ? f.rc[a] == f.rc[b] : f.rrv[a] == f.rrv[b]; bool g = h.ev([&]() { return kind == 0 ? f.m[a] == f.m[b] : kind == 1 ? f.s[a] == f.s[b] : kind == 2 ? f.c[a] == f.c[b] : f.r[a] == f.r[b]; }); if (g != w) s.fail("comparison", "operator== says %d, the values are %s", (int)g, w ? "equal" : "different"); break; }
    case 15: { if (kind < 2) { a = pick(s, nr, [&](int i) { return f.rm[i].r == f.rm[i].c; }); if (a < 0) break; ref::M W = lower(f.rm[a]); { Sut u; f.m[a].convertToSymmetricMatrix(f.s[d]); } f.rs[d] = rm(f.s[d]); h.eq("symmetric matrix (lower triangle)", f.rs[d], W, 0); } else { { Sut u; if (kind == 2) f.m[d] = f.s[a]; else { Matrix x(f.s[a]); f.m[d] = x; } } f.rm[d] = rm(f.m[d]); h.eq("matrix", f.rm[d], f.rs[a], 0); } break; }
    case 16: { ref::M A = f.rs[a]; int n = A.r; bool indef = false; if (kind == 0) { A = rspd(s, n, 0.1, 3, s.draw(2)); h.sset(a, A); A = f.rs[a]; } else if (kind == 1) { A = rspd(s, n, 0.1, 3, s.draw(2)); A(n - 1, n - 1) = -1; h.sset(a, A); A = f.rs[a]; indef = true; } else { bool spd = ref::scale(A) > 0; ref::M P = A; for (int i = 0; i < n; i++) P(i, i) -= 1e-6L * ref::scale(A); if (!spd || !(ref::mineig_ge(P) > 0) || ref::scale(A) < 1e-6 || ref::scale(A) > 1e6) break; }
      std::pair<bool, Matrix> g = h.ev([&]() { Matrix L; bool ok = f.s[a].cholesky_semidefinite(L); return std::make_pair(ok, L); }); if (indef) { if (g.first) s.fail("cholesky", "accepts a matrix with a negative diagonal element"); h.eq("factor of an indefinite matrix", rm(g.second), ref::M(n, n), 0); break; } if (!g.first) s.fail("cholesky", "refuses a positive definite matrix"); ref::M L = rm(g.second); h.eq("root times transpose", ref::mul(L, ref::tr(L)), A, 1e-12 * (double)ref::scale(A)); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (L(i, j) != 0) s.fail("cholesky", "factor has an element above the diagonal"); break; }
    case 17: { if (ref::scale(f.rm[a]) > 1e6) break; const ref::M A = f.rm[a]; Matrix U, V; ColumnVector w; if (s.draw(2)) { U = f.m[b]; V = f.m[d]; w = f.c[b]; } bool ok; { Sut u; ok = f.m[a].SVD(w, U, V); } if (!ok) s.fail("svd", "no convergence on %s", str(A).c_str()); ref::M Ur = rm(U), Vr = rm(V); ref::V wr = rv(w); double tl = 1e-11 * (double)(1e-30L + ref::scale(A)); if ((int)wr.size() != A.c || Ur.r != A.r || Ur.c != A.c || Vr.r != A.c || Vr.c != A.c) s.fail("svd", "sizes: w %d, U %dx%d, V %dx%d for a %dx%d matrix", (int)wr.size(), Ur.r, Ur.c, Vr.r, Vr.c, A.r, A.c); ref::M UD = Ur; for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) UD(i, j) *= wr[j]; h.eq("U times W times V'", ref::mul(UD, ref::tr(Vr)), A, tl); h.eq("V'V", ref::mul(ref::tr(Vr), Vr), ref::eye(A.c), 1e-11); ref::M G = ref::mul(ref::tr(Ur), Ur); for (int i = 0; i < A.c; i++) { if (!(wr[i] >= 0)) s.fail("svd", "singular value %g", (double)wr[i]); for (int j = 0; j < A.c; j++) if (wr[i] > 1e-9 * ref::scale(A) && wr[j] > 1e-9 * ref::scale(A)) h.eq("U'U", (double)G(i, j), i == j, 1e-9); } break; }
    case 18: { double eps = s.draw(2) ? 0.01 : 1e-6; int r = s.range(1, dmax), c = s.range(1, dmax), k = s.range(1, std::min(r, c)); ref::M B = rmat(s, r, k, 2), C = rmat(s, k, c, 2), A = ref::mul(B, C); bool dbl = true; for (auto x : A.a) if ((ref::R)(double)x != x) dbl = false; if (!dbl) break; ref::R db = 0, dc = 0; ref::M BtB = ref::mul(ref::tr(B), B), CCt = ref::mul(C, ref::tr(C)), Bi = ref::inv(BtB, &db), Ci = ref::inv(CCt, &dc); if (db == 0 || dc == 0) break; ref::R tb = 0, tc = 0; for (int i = 0; i < k; i++) { tb += Bi(i, i); tc += Ci(i, i); } if (!(tb > 0 && tc > 0) || !(1 / std::sqrt(tb) / std::sqrt(tc) > 4 * 0.01L)) { s.probe("ill_conditioned"); break; } h.mset(a, A); ref::M W = ref::mul(ref::mul(ref::tr(C), Ci), ref::mul(Bi, ref::tr(B))); Matrix g = h.ev([&]() { return f.m[a].pseudoinverse(eps); }); h.eq("result", rm(g), W, 1e-8 * (double)(1 + ref::scale(W))); break; }
    case 19: { bool sy = kind & 1; const ref::M A = sy ? f.rs[a] : f.rm[a]; b = pick(s, nr, [&](int i) { return (int)f.rc[i].size() == A.c; }); if (b < 0) break; ref::V W = ref::mul(A, f.rc[b]); ColumnVector g = h.ev([&]() { return sy ? f.s[a] * f.c[b] : f.m[a] * f.c[b]; }); double tl = h.tol(W, A.c * ref::scale(A) * ref::scale(f.rc[b])); h.eq("result", rv(g), W, tl); { Sut u; if (sy && kind == 3) { if (b == d) s.probe("aliased"); f.s[a].multiply(f.c[b], f.c[d]); } else if (sy) f.c[d] = f.s[a] * f.c[b]; else f.c[d] = f.m[a] * f.c[b]; } f.rc[d] = rv(f.c[d]); h.eq("destination", f.rc[d], W, tl); break; }
    case 20: { if (kind < 2) { ref::M W = ref::mul(col(f.rc[a]), row(f.rrv[b])); Matrix g = h.ev([&]() { return f.c[a] * f.r[b]; }); h.eq("result", rm(g), W, h.tol(W)); { Sut u; f.m[d] = g; } f.rm[d] = rm(g); } else { b = pick(s, nr, [&](int i) { return f.rc[i].size() == f.rrv[a].size(); }); if (b < 0) break; double g = h.ev([&]() { return f.r[a] * f.c[b]; }); ref::R w = ref::dot(f.rrv[a], f.rc[b]); h.eq("result", g, w, 1e-12 * (double)(1e-3L + f.rc[b].size() * ref::scale(f.rrv[a]) * ref::scale(f.rc[b]))); } break; }
    case 21: { if (f.rc[a].size() + f.rc[b].size() > 12 || f.rrv[a].size() + f.rrv[b].size() > 12) break; if (kind < 2) { ref::V W = f.rc[a]; W.insert(W.end(), f.rc[b].begin(), f.rc[b].end()); ColumnVector g = h.ev([&]() { return kind ? f.c[a].vectorAdd(f.c[b]) : ColumnVector(f.c[a], f.c[b]); }); h.eq("result", rv(g), W, 0); { Sut u; f.c[d] = g; } f.rc[d] = rv(g); } else { ref::V W = f.rrv[a]; W.insert(W.end(), f.rrv[b].begin(), f.rrv[b].end()); RowVector g = h.ev([&]() { return f.r[a].vectorAdd(f.r[b]); }); h.eq("result", rr(g), W, 0); { Sut u; f.r[d] = g; } f.rrv[d] = rr(g); } break; }
    case 22: { double x = (double)q12(s.sym(2)); if (kind == 0) { int i = s.draw(f.rm[d].r), j = s.draw(f.rm[d].c); { Sut u; f.m[d](i + 1, j + 1) = x; } f.rm[d](i, j) = x; } else if (kind == 1) { int i = s.draw(f.rs[d].r), j = s.draw(f.rs[d].r); { Sut u; f.s[d](i + 1, j + 1) = x; f.s[d](j + 1, i + 1) = x; } f.rs[d](i, j) = f.rs[d](j, i) = x; } else if (kind == 2) { int i = s.draw(f.rc[d].size()); { Sut u; if (s.draw(2)) f.c[d](i + 1) = x; else f.c[d][i] = x; } f.rc[d][i] = x; if (((const ColumnVector&)f.c[d])[i] != x) s.fail("value", "element [%d] does not read back", i); } else { int i = s.draw(f.rrv[d].size()); { Sut u; f.r[d](i + 1) = x; } f.rrv[d][i] = x; } break; }
    case 23: { double x = (double)q12(s.sym(2)); int n = s.range(1, dmax); if (kind == 0) { int k = s.range(1, dmax); Matrix g = h.ev([&]() { return Matrix(k, f.r[a]); }); ref::M W(k, f.rrv[a].size()); for (int i = 0; i < k; i++) for (size_t j = 0; j < f.rrv[a].size(); j++) W(i, j) = f.rrv[a][j]; h.eq("result", rm(g), W, 0); { Sut u; f.m[d] = g; } f.rm[d] = rm(g); } else if (kind == 1) { if (s.draw(2)) { Sut u; f.s[d] = SymmetricMatrix(n); } else { Sut u; SymmetricMatrix y(n); f.s[d] = y; } NoSut u; for (int i = 1; i <= n; i++) for (int j = 1; j <= i; j++) { f.s[d](i, j) = x + i; f.s[d](j, i) = x + i; } f.rs[d] = rm(f.s[d]); } else if (kind == 2) { ColumnVector g = h.ev([&]() { return ColumnVector(n, x); }); h.eq("result", rv(g), ref::V(n, x), 0); { Sut u; f.c[d] = g; } f.rc[d] = rv(g); } else { RowVector g = h.ev([&]() { return RowVector(n, x); }); h.eq("result", rr(g), ref::V(n, x), 0); { Sut u; f.r[d] = g; } f.rrv[d] = rr(g); } break; }
    default: { if (a == d) s.probe("self_assignment"); if (kind == 0) { { Sut u; if (s.draw(2)) f.m[d] = f.m[a]; else { Matrix x(f.m[a]); f.m[d] = x; } } f.rm[d] = f.rm[a]; } else if (kind == 1) { { Sut u; if (s.draw(2)) f.s[d] = f.s[a]; else { SymmetricMatrix x(f.s[a]); f.s[d] = x; } } f.rs[d] = f.rs[a]; } else if (kind == 2) { { Sut u; if (s.draw(2)) f.c[d] = f.c[a]; else { ColumnVector x(f.c[a]); f.c[d] = x; } } f.rc[d] = f.rc[a]; } else { { Sut u; if (s.draw(2)) f.r[d] = f.r[a]; else { RowVector x(f.r[a]); f.r[d] = x; } } f.rrv[d] = f.rrv[a]; } break; }
    }
    h.all();
    for (int i = 0; i < nr; i++) { if (!(ref::scale(f.rm[i]) < 1e6)) h.mset(i, mat(s, f.rm[i].r, f.rm[i].c)); if (!(ref::scale(f.rs[i]) < 1e6)) h.sset(i, rspd(s, f.rs[i].r, 0.1, 3, true)); if (!(ref::scale(f.rc[i]) < 1e6)) h.cset(i, rvec(s, f.rc[i].size(), 2)); if (!(ref::scale(f.rrv[i]) < 1e6)) h.rset(i, rvec(s, f.rrv[i].size(), 2)); }
  }
}
