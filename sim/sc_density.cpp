// Closed-form densities at every scale: Gaussian, uniform and linear conditional Gaussian against their definition, log domain, with failed allocations.
#include "bflcommon.h"
#include <pdf/uniform.h>
#include <pdf/conditionalgaussian_additivenoise.h>
using namespace W; using namespace BFL; using sim::NoSut;
namespace {
typedef ref::R R;
struct Shape { ref::V d; ref::M r, S; R cond; };   // covariance S = D Rho D, d = powers of two, cond of Rho bounded
ref::M corr(Sim& s, int n, int how) { ref::M L = ref::eye(n); if (how) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (how == 2 || s.draw(2)) L(i, j) = q12(s.sym(how == 2 ? 4 : 1)); return ref::sym(ref::mul(L, ref::tr(L))); }
R fro(const ref::M& a) { R t = 0; for (auto x : a.a) t += x * x; return std::sqrt(t); }
bool shape(Sim& s, int n, Shape& o) { int e = s.range(-20, 20), sp = s.draw(2) ? 0 : 6; o.d.resize(n); for (auto& x : o.d) x = std::ldexp(1.0L, e + s.range(-sp, sp)); o.r = corr(s, n, s.draw(3)); R det = 0; o.cond = fro(o.r) * fro(ref::inv(o.r, &det)); if (!(det > 0) || !(o.cond < 1e4L)) return false; o.S = o.r; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) o.S(i, j) *= o.d[i] * o.d[j]; for (auto x : o.S.a) if ((R)(double)x != x) return false; return true; }
Shape shaped(Sim& s, int n) { Shape o; for (int i = 0; i < 20; i++) if (shape(s, n, o)) return o; o.d.assign(n, 1); o.r = o.S = ref::eye(n); o.cond = n; return o; }
R logdet(const ref::M& a) { R det = 0; ref::inv(a, &det); return std::log(det); }
// an argument at a chosen distance from the mean, exactly representable
ref::V arg(Sim& s, const ref::V& m, const Shape& p) { static const double far[] = {0, 0.1, 1, 1, 3, 10, 40}; double k = far[s.draw(7)]; ref::V x = m; for (size_t i = 0; i < x.size(); i++) { x[i] += p.d[i] * q12(s.sym(1)) * k; x[i] = (R)(double)x[i]; } if (s.draw(4) == 0) { x = m; size_t i = s.draw(x.size()); x[i] = (R)(double)(x[i] + p.d[i] * (R)k); } return x; }
struct C { Sim& s; bool oom; long k;
  template <class F> auto ev(const char* op, F fn) -> decltype(fn()) { if (oom) { oom = false; sim::arm_alloc(k); try { auto v = [&]() { Sut t; return fn(); }(); if (sim::disarm_alloc()) s.fail("swallowed", "%s: an allocation failed and nobody noticed", op); return v; } catch (const std::bad_alloc&) { sim::disarm_alloc(); s.fault("allocation_failed"); s.ev("oom", "%s", op); } catch (const sim::Violation&) { throw; } catch (const std::exception& x) { sim::disarm_alloc(); s.fail("wrong-exception", "%s: failed allocation surfaced as '%s'", op, x.what()); } } Sut t; return fn(); }
  void pdf(const char* what, double g, const ref::V& x, const ref::V& m, const Shape& p, R slack) { int n = x.size(); R L = -0.5L * n * std::log(2 * 3.14159265358979323846264338327950288L) - 0.5L * logdet(p.r); for (auto v : p.d) L -= std::log(v); ref::V u = ref::add(x, m, -1); for (int i = 0; i < n; i++) u[i] /= p.d[i]; R q = ref::dot(u, ref::mul(ref::inv(p.r), u)); R N = L; L -= q / 2; s.h(g);
    R un = 0; for (auto v : u) un += v * v; un = std::sqrt(un); R tol = 1e-13L * n * n * p.cond * (100 + un * un * p.cond) + slack * p.cond * (un + slack);
    if (!(g >= 0) || !std::isfinite(g)) s.fail("density", "%s: density %.17g at %s", what, g, str(x).c_str()); if (q > 1380 || L < -690) { s.probe("far_tail"); if (g > 2 * std::exp(L) + 1e-300L * std::max<R>(1, std::exp(N))) s.fail("density", "%s: density %.17g at %s, expected exp(%.9g)", what, g, str(x).c_str(), (double)L); return; } if (tol > 1e-3L) { s.probe("ill_conditioned"); return; } s.probe("compared");
    if (!(g > 0) || !(std::fabs(std::log((R)g) - L) <= tol)) s.fail("density", "%s: density %.17g at %s, expected %.17g (mean %s, covariance %s)", what, g, str(x).c_str(), (double)std::exp(L), str(m).c_str(), str(p.S).c_str()); }
  void same(const char* what, const ref::V& g, const ref::V& w, const ref::V& d, R tol) { if (g.size() != w.size()) s.fail("size", "%s has %d elements, expected %d", what, (int)g.size(), (int)w.size()); for (size_t i = 0; i < w.size(); i++) if (!(std::fabs(g[i] - w[i]) <= tol * d[i])) s.fail("mean", "%s is %s, expected %s", what, str(g).c_str(), str(w).c_str()); }
  void same(const char* what, const ref::M& g, const ref::M& w) { if (g.r != w.r || g.c != w.c) s.fail("size", "%s is %dx%d, expected %dx%d", what, g.r, g.c, w.r, w.c); for (size_t i = 0; i < w.a.size(); i++) if (g.a[i] != w.a[i]) s.fail("matrix", "%s is %s, expected %s", what, str(g).c_str(), str(w).c_str()); } };
ref::V mean(Sim& s, const Shape& p) { ref::V m(p.d.size()); double k = s.draw(2) ? 1 : 100; for (size_t i = 0; i < m.size(); i++) m[i] = p.d[i] * q12(s.sym(k)); return m; }

void gauss(Sim& s, C& c) { struct O { std::unique_ptr<Gaussian> d; ref::V m; Shape p; }; std::vector<O> pool; int n = s.range(1, s.draw(2) ? 3 : 8); unsigned poom = s.config >= 1 && s.draw(2) ? 250 : 0;
  auto fresh = [&]() { O o; o.p = shaped(s, n); o.m = mean(s, o.p); ColumnVector m = cv(o.m); SymmetricMatrix S = csym(o.p.S); Sut t; switch (s.draw(3)) { case 0: o.d.reset(new Gaussian(m, S)); break; case 1: o.d.reset(new Gaussian(n)); o.d->CovarianceSet(S); o.d->ExpectedValueSet(m); break; default: o.d.reset(new Gaussian()); if (s.draw(2)) { o.d->ExpectedValueSet(m); o.d->CovarianceSet(S); } else { o.d->CovarianceSet(S); o.d->ExpectedValueSet(m); } } return o; };
  pool.push_back(fresh()); int ops = s.range(1, 25);
  for (int t = 0; t < ops; t++) { s.simtime += 1; size_t i = s.draw(pool.size()); O& o = pool[i]; c.oom = poom && s.chance(poom); c.k = s.range(1, 6); const char* what = "query";
    switch (s.draw(8)) {
      case 0: { what = "set mean"; o.m = mean(s, o.p); ColumnVector m = cv(o.m); c.ev(what, [&]() { o.d->ExpectedValueSet(m); return 0; }); break; }
      case 1: { what = "set covariance"; Shape p = shaped(s, n); if (s.draw(3) == 0) { p = o.p; R f = s.draw(2) ? 4 : 0.25L; for (auto& v : p.d) v *= f; for (auto& v : p.S.a) v *= f * f; } o.p = p; SymmetricMatrix S = csym(p.S); c.ev(what, [&]() { o.d->CovarianceSet(S); return 0; }); break; }
      case 2: { if (pool.size() >= 4) break; what = "clone"; Gaussian* g = c.ev(what, [&]() { return o.d->Clone(); }); O k; k.d.reset(g); k.m = o.m; k.p = o.p; pool.push_back(std::move(k)); break; }
      case 3: { what = "assign"; size_t j = s.draw(pool.size()); { Sut u; *pool[j].d = *o.d; } pool[j].m = o.m; pool[j].p = o.p; break; }
      case 4: { if (pool.size() >= 4) break; what = "new"; pool.push_back(fresh()); break; }
      default: break; }
    s.ev(what, "#%d obj %zu", t, i); s.probe(what);
    for (auto& q : pool) { for (int k = s.draw(3); k > 0; k--) { c.oom = poom && s.chance(poom); c.k = s.range(1, 6); ref::V x = arg(s, q.m, q.p); ColumnVector xc = cv(x); double g = c.ev("density", [&]() { return (double)q.d->ProbabilityGet(xc); }); if (rv(xc) != x) s.fail("argument", "the caller's argument changed"); c.pdf(what, g, x, q.m, q.p, 0); }
      if ((int)q.d->DimensionGet() != n) s.fail("size", "dimension %u, expected %d", q.d->DimensionGet(), n); ref::V gm = rv(c.ev("mean", [&]() { return q.d->ExpectedValueGet(); })); c.same("mean", gm, q.m, q.p.d, 0); c.same("covariance", rm(c.ev("covariance", [&]() { return q.d->CovarianceGet(); })), q.p.S); } } }

void uniform(Sim& s, C& c) { int n = s.range(1, 8); struct O { std::unique_ptr<Uniform> d; ref::V m, w; }; std::vector<O> pool; int ops = s.range(1, 25); unsigned poom = s.config >= 1 && s.draw(2) ? 250 : 0;
  auto par = [&](O& o) { o.m.resize(n); o.w.resize(n); int e = s.range(-20, 20); for (int i = 0; i < n; i++) { R k = std::ldexp(1.0L, e + s.range(-6, 6)); o.m[i] = k * q12(s.sym(s.draw(2) ? 1 : 100)); o.w[i] = 2 * k * (q12(s.real(0, 3)) + 1.0L / 4096); } };   // centre +- width/2 is exact
  auto fresh = [&]() { O o; par(o); ColumnVector m = cv(o.m), w = cv(o.w); Sut t; switch (s.draw(3)) { case 0: o.d.reset(new Uniform(m, w)); break; case 1: o.d.reset(new Uniform(n)); o.d->UniformSet(m, w); break; default: o.d.reset(new Uniform()); o.d->UniformSet(m, w); } return o; };
  pool.push_back(fresh());
  for (int t = 0; t < ops; t++) { s.simtime += 1; size_t i = s.draw(pool.size()); O& o = pool[i]; const char* what = "query"; c.oom = poom && s.chance(poom); c.k = s.range(1, 4);
    switch (s.draw(5)) { case 0: { what = "set bounds"; par(o); ColumnVector m = cv(o.m), w = cv(o.w); c.ev(what, [&]() { o.d->UniformSet(m, w); return 0; }); break; } case 1: { if (pool.size() >= 4) break; what = "clone"; O k; k.d.reset(c.ev(what, [&]() { return o.d->Clone(); })); k.m = o.m; k.w = o.w; pool.push_back(std::move(k)); break; } case 2: { what = "assign"; size_t j = s.draw(pool.size()); { Sut u; *pool[j].d = *o.d; } pool[j].m = o.m; pool[j].w = o.w; break; } case 3: { if (pool.size() >= 4) break; what = "new"; pool.push_back(fresh()); break; } default: break; }
    s.ev(what, "#%d obj %zu", t, i); s.probe(what);
    for (auto& q : pool) for (int k = s.draw(3); k > 0; k--) { ref::V x(n); bool in = true; for (int j = 0; j < n; j++) { int how = s.draw(8); R h = q.w[j] / 2, lo = q.m[j] - h, hi = q.m[j] + h; if ((R)(double)lo != lo || (R)(double)hi != hi) { x[j] = q.m[j]; continue; } x[j] = how == 0 ? lo : how == 1 ? hi : how == 2 ? q.m[j] : (R)(double)(q.m[j] + h * (R)s.sym(0.999)); if (x[j] < lo || x[j] > hi) x[j] = q.m[j]; }
        if (s.draw(2)) { int j = s.draw(n); R h = q.w[j] / 2; double lo = (double)(q.m[j] - h), hi = (double)(q.m[j] + h); if ((R)lo == q.m[j] - h && (R)hi == q.m[j] + h) { in = false; switch (s.draw(4)) { case 0: x[j] = std::nextafter(lo, -1e300); break; case 1: x[j] = std::nextafter(hi, 1e300); break; case 2: x[j] = (R)(double)(q.m[j] - 3 * h); break; default: x[j] = (R)(double)(q.m[j] + 3 * h); } } }
        c.oom = poom && s.chance(poom); c.k = s.range(1, 4); ColumnVector xc = cv(x); double g = c.ev("density", [&]() { return (double)q.d->ProbabilityGet(xc); }); R w = in ? 1 : 0; for (auto v : q.w) w /= v; s.h(g); s.probe(in ? "inside" : "outside"); if (!(std::fabs(g - w) <= 1e-13L * n * w)) s.fail("density", "%s: uniform density %.17g at %s, expected %.17g (centre %s, width %s)", what, g, str(x).c_str(), (double)w, str(q.m).c_str(), str(q.w).c_str());
        ref::V gm = rv(c.ev("centre", [&]() { return q.d->CenterGet(); })), gw = rv(c.ev("width", [&]() { return q.d->WidthGet(); })); for (int j = 0; j < n; j++) { R big = std::fabs((double)q.m[j]) + q.w[j]; if (!(std::fabs(gm[j] - q.m[j]) <= 1e-15L * big) || !(std::fabs(gw[j] - q.w[j]) <= 1e-15L * big)) s.fail("bounds", "%s: centre %s width %s, expected %s and %s", what, str(gm).c_str(), str(gw).c_str(), str(q.m).c_str(), str(q.w).c_str()); } } } }

// the same linear function as a user would write it on the abstract bases
template <class Base> struct User : Base { std::vector<Matrix> A; User(const std::vector<Matrix>& a, const Gaussian& g) : Base(g, a.size()), A(a) {} User* Clone() const { return new User(*this); }
  ColumnVector ExpectedValueGet() const { ColumnVector m = this->AdditiveNoiseMuGet(); for (size_t i = 0; i < A.size(); i++) m += A[i] * this->ConditionalArgumentGet(i); return m; } void MatrixSet(unsigned i, const Matrix& m) { A[i] = m; } const Matrix& MatrixGet(unsigned i) const { return A[i]; } };
struct UserAny : User<ConditionalGaussianAdditiveNoise> { using User::User; UserAny* Clone() const { return new UserAny(*this); } Matrix dfGet(unsigned i) const { return A[i]; } };
struct UserAnalytic : User<AnalyticConditionalGaussianAdditiveNoise> { using User::User; UserAnalytic* Clone() const { return new UserAnalytic(*this); } Matrix dfGet(unsigned i) const { return A[i]; } };
template <class T> T* make(Sim& s, const std::vector<Matrix>& r, const Gaussian& g) { return new T(r, g); }
template <> LinearAnalyticConditionalGaussian* make<LinearAnalyticConditionalGaussian>(Sim& s, const std::vector<Matrix>& r, const Gaussian& g) { bool one; { NoSut n; one = r.size() == 1 && s.draw(2); } return one ? new LinearAnalyticConditionalGaussian(r[0], g) : new LinearAnalyticConditionalGaussian(r, g); }
template <class T> void linear(Sim& s, C& c) { int n = s.range(1, 5), na = s.range(1, 3); std::vector<int> dim(na); for (auto& d : dim) d = s.range(1, 5); struct O { std::unique_ptr<T> d; std::vector<ref::M> A; std::vector<ref::V> x; ref::V mu; Shape p; std::vector<R> k; }; std::vector<O> pool; int ops = s.range(1, 25); unsigned poom = s.config >= 1 && s.draw(2) ? 250 : 0;
  auto mat = [&](const Shape& p, int cols, R k) { ref::M A = rmat(s, p.d.size(), cols, 2); for (int i = 0; i < A.r; i++) for (int j = 0; j < cols; j++) A(i, j) *= p.d[i] / k; return A; };   // rows in the units of the noise, argument in units of k
  auto vec = [&](int d, R k) { ref::V x = rvec(s, d, 3); for (auto& v : x) v *= k; return x; };
  { O o; o.p = shaped(s, n); o.mu = mean(s, o.p); std::vector<Matrix> r; for (int i = 0; i < na; i++) { o.k.push_back(std::ldexp(1.0L, s.range(-10, 10))); o.A.push_back(mat(o.p, dim[i], o.k[i])); o.x.push_back(vec(dim[i], o.k[i])); r.push_back(cm(o.A[i])); } Gaussian g(cv(o.mu), csym(o.p.S)); { Sut t; o.d.reset(make<T>(s, r, g)); } bool zero = std::is_same<T, LinearAnalyticConditionalGaussian>::value && s.draw(2); for (int i = 0; i < na; i++) if (zero) { s.probe("default_arguments"); for (auto& v : o.x[i]) v = 0; } else o.d->ConditionalArgumentSet(i, cv(o.x[i])); pool.push_back(std::move(o)); }
  for (int t = 0; t < ops; t++) { s.simtime += 1; size_t w = s.draw(pool.size()); O& o = pool[w]; const char* what = "query"; int i = s.draw(na); c.oom = poom && s.chance(poom); c.k = s.range(1, 6);
    switch (s.draw(8)) { case 0: case 1: { what = "set argument"; o.x[i] = vec(dim[i], o.k[i]); ColumnVector x = cv(o.x[i]); c.ev(what, [&]() { o.d->ConditionalArgumentSet(i, x); return 0; }); break; } case 2: { what = "set all arguments"; std::vector<ColumnVector> v; for (int j = 0; j < na; j++) { o.x[j] = vec(dim[j], o.k[j]); v.push_back(cv(o.x[j])); } { Sut u; o.d->ConditionalArgumentsSet(v); } break; }
      case 3: { what = "set matrix"; o.A[i] = mat(o.p, dim[i], o.k[i]); Matrix A = cm(o.A[i]); c.ev(what, [&]() { o.d->MatrixSet(i, A); return 0; }); break; } case 4: { what = "set noise mean"; o.mu = mean(s, o.p); ColumnVector m = cv(o.mu); c.ev(what, [&]() { o.d->AdditiveNoiseMuSet(m); return 0; }); break; } case 5: { what = "set noise covariance"; Shape p = shaped(s, n); for (int j = 0; j < n; j++) { R f = o.p.d[j]; p.d[j] = f; } p.S = p.r; bool ok = true; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { p.S(a, b) *= p.d[a] * p.d[b]; ok = ok && (R)(double)p.S(a, b) == p.S(a, b); } if (!ok) break; o.p = p; SymmetricMatrix S = csym(p.S); c.ev(what, [&]() { o.d->AdditiveNoiseSigmaSet(S); return 0; }); break; }
      case 6: { if (pool.size() >= 3) break; what = "clone"; O k; k.d.reset((T*)c.ev(what, [&]() { return o.d->Clone(); })); k.A = o.A; k.x = o.x; k.mu = o.mu; k.p = o.p; k.k = o.k; pool.push_back(std::move(k)); break; } default: break; }
    s.ev(what, "#%d obj %zu arg %d", t, w, i); s.probe(what);
    for (auto& q : pool) { T& D = *q.d; ref::V m = q.mu, big = q.mu; for (auto& v : big) v = std::fabs((double)v); for (int a = 0; a < na; a++) { m = ref::add(m, ref::mul(q.A[a], q.x[a])); for (int j = 0; j < n; j++) for (int l = 0; l < dim[a]; l++) big[j] += std::fabs((double)(q.A[a](j, l) * q.x[a][l])); } R slack = 0; for (int j = 0; j < n; j++) slack = std::max<R>(slack, 1e-15L * 20 * big[j] / q.p.d[j]);
      ref::V y = arg(s, m, q.p); ColumnVector yc = cv(y); int order = s.draw(3); auto moments = [&]() { ref::V g = rv(c.ev("mean", [&]() { return D.ExpectedValueGet(); })); c.same("conditional mean", g, m, big, 1e-14L); c.same("conditional covariance", rm(c.ev("covariance", [&]() { return D.CovarianceGet(); })), q.p.S); }; if (order == 0) moments();
      c.oom = poom && s.chance(poom); c.k = s.range(1, 6); double g = c.ev("density", [&]() { return (double)D.ProbabilityGet(yc); }); c.pdf(what, g, y, m, q.p, slack); if (order == 1) moments(); for (int a = 0; a < na; a++) { c.oom = poom && s.chance(poom); c.k = s.range(1, 3); c.same("Jacobian", rm(c.ev("Jacobian", [&]() { return D.dfGet(a); })), q.A[a]); c.same("matrix", rm(D.MatrixGet(a)), q.A[a]); if (rv(D.ConditionalArgumentGet(a)) != q.x[a]) s.fail("argument", "%s: argument %d reads back as %s", what, a, str(rv(D.ConditionalArgumentGet(a))).c_str()); }
      if (rv(D.AdditiveNoiseMuGet()) != q.mu) s.fail("argument", "%s: noise mean reads back as %s", what, str(rv(D.AdditiveNoiseMuGet())).c_str()); c.same("noise covariance", rm(D.AdditiveNoiseSigmaGet()), q.p.S); } } }
}
SCENARIO(C19, 2) { C c = {s, false, 0}; switch (s.draw(4)) { case 0: case 1: gauss(s, c); break; case 2: uniform(s, c); break; default: switch (s.draw(4)) { case 0: case 1: linear<LinearAnalyticConditionalGaussian>(s, c); break; case 2: linear<UserAny>(s, c); break; default: linear<UserAnalytic>(s, c); } } }
