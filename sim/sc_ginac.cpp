// Symbolic (GiNaC) densities and models: accessors, copies and lifetimes, and Kalman filters running on them through the faulty link.
#include "bflcommon.h"
#include "kmodels.h"
#include "world.h"
#include <filter/extendedkalmanfilter.h>
#include <filter/iteratedextendedkalmanfilter.h>
#include <pdf/nonlinearanalyticconditionalgaussian_ginac.h>
#include <model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.h>
#include <model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.h>
using namespace W;
typedef NonLinearAnalyticConditionalGaussian_Ginac GP; typedef NonLinearAnalyticSystemModelGaussianUncertainty_Ginac GS; typedef NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac GM;
namespace {
const std::vector<GiNaC::symbol>& pool() { static std::vector<GiNaC::symbol>* p = 0; if (!p) { p = new std::vector<GiNaC::symbol>; for (int i = 0; i < 12; i++) { char b[8]; snprintf(b, 8, "s%d", i); p->push_back(GiNaC::symbol(b)); } } return *p; }
// the same function, by hand: sums of terms with known derivatives
struct Term { int t, j, k; ref::R c;
  ref::R v(const ref::V& x, const ref::V& u) const { switch (t) { case 0: return c; case 1: return c * x[j]; case 2: return c * u[k]; case 3: return c * x[j] * u[k]; case 4: return c * std::sin(x[j] + 0.75L * u[k]); case 5: return c * std::cos(x[j]) * std::sin(x[k]); case 6: return c * std::exp(-x[j] * x[j]); case 7: return c * std::sqrt(1 + x[j] * x[j]); default: return c * std::sin(u[k]); } }
  ref::R dx(int l, const ref::V& x, const ref::V& u) const { ref::R d = 0; switch (t) { case 1: return l == j ? c : 0; case 3: return l == j ? c * u[k] : 0; case 4: return l == j ? c * std::cos(x[j] + 0.75L * u[k]) : 0; case 5: if (l == j) d -= c * std::sin(x[j]) * std::sin(x[k]); if (l == k) d += c * std::cos(x[j]) * std::cos(x[k]); return d; case 6: return l == j ? -2 * x[j] * c * std::exp(-x[j] * x[j]) : 0; case 7: return l == j ? c * x[j] / std::sqrt(1 + x[j] * x[j]) : 0; default: return 0; } }
  ref::R du(int l, const ref::V& x, const ref::V& u) const { if (l != k) return 0; switch (t) { case 2: return c; case 3: return c * x[j]; case 4: return 0.75L * c * std::cos(x[j] + 0.75L * u[k]); case 8: return c * std::cos(u[k]); default: return 0; } }
  GiNaC::ex sym(const std::vector<GiNaC::symbol>& x, const std::vector<GiNaC::symbol>& u) const { GiNaC::numeric C((double)c); switch (t) { case 0: return C; case 1: return C * x[j]; case 2: return C * u[k]; case 3: return C * x[j] * u[k]; case 4: return C * GiNaC::sin(x[j] + GiNaC::numeric(3, 4) * u[k]); case 5: return C * GiNaC::cos(x[j]) * GiNaC::sin(x[k]); case 6: return C * GiNaC::exp(-GiNaC::pow(x[j], 2)); case 7: return C * GiNaC::sqrt(1 + GiNaC::pow(x[j], 2)); default: return C * GiNaC::sin(u[k]); } } };
struct SF { int n, m, nu; std::vector<std::vector<Term> > y; std::vector<int> cond; ref::V mu; ref::M C; std::vector<int> sx, su;   // cond: inputs carrying the noise (empty: noise is additive)
  ref::V at(const ref::V& u) const { ref::V r = u; for (size_t i = 0; i < cond.size(); i++) r[cond[i]] += mu[i]; return r; }
  ref::V f(const ref::V& x, const ref::V& u0) const { ref::V u = at(u0), r(m, 0); for (int i = 0; i < m; i++) { for (auto& t : y[i]) r[i] += t.v(x, u); if (cond.empty()) r[i] += mu[i]; } return r; }
  ref::M F(const ref::V& x, const ref::V& u0) const { ref::V u = at(u0); ref::M J(m, n); for (int i = 0; i < m; i++) for (auto& t : y[i]) for (int l = 0; l < n; l++) J(i, l) += t.dx(l, x, u); return J; }
  ref::M S(const ref::V& x, const ref::V& u0) const { if (cond.empty()) return C; ref::V u = at(u0); ref::M D(m, cond.size()); for (int i = 0; i < m; i++) for (auto& t : y[i]) for (size_t l = 0; l < cond.size(); l++) D(i, l) += t.du(cond[l], x, u); return ref::sym(ref::mul(ref::mul(D, C), ref::tr(D))); }
  std::vector<GiNaC::symbol> symx() const { std::vector<GiNaC::symbol> r; for (int i : sx) r.push_back(pool()[i]); return r; }
  std::vector<GiNaC::symbol> symu() const { std::vector<GiNaC::symbol> r; for (int i : su) r.push_back(pool()[i]); return r; }
  std::vector<GiNaC::symbol> symc() const { std::vector<GiNaC::symbol> r; for (int i : cond) r.push_back(pool()[su[i]]); return r; }
  GiNaC::matrix func() const { GiNaC::matrix r(m, 1); auto X = symx(), U = symu(); for (int i = 0; i < m; i++) { GiNaC::ex e = 0; for (auto& t : y[i]) e += t.sym(X, U); r(i, 0) = e; } return r; } };
SF mkfn(Sim& s, int n, int m, int nu, bool sys) {
  SF f; f.n = n; f.m = m; f.nu = nu; f.y.resize(m); bool par = nu > 0 && s.draw(2); int terms = s.range(0, 4);
  std::vector<int> ids; for (int i = 0; i < 12; i++) ids.push_back(i); if (s.draw(2)) for (int i = 11; i > 0; i--) std::swap(ids[i], ids[s.draw(i + 1)]); f.sx.assign(ids.begin(), ids.begin() + n); f.su.assign(ids.begin() + n, ids.begin() + n + nu);
  for (int i = 0; i < m; i++) { bool none = s.draw(12) == 0; if (!none) { f.y[i].push_back(Term{1, i % n, 0, sys ? q12(s.real(0.3, 0.8)) : q12(s.real(0.5, 1.5))}); if (nu && (par || s.draw(2))) f.y[i].push_back(Term{2, 0, i % nu, q12(s.real(0.4, 1.2))}); } for (int t = 0; t < terms && !none; t++) { Term x; x.t = s.draw(9); x.j = s.draw(n); x.k = (x.t == 5) ? s.draw(n) : nu ? s.draw(nu) : 0; x.c = q12(s.sym(0.4)); if (!nu && (x.t == 2 || x.t == 3 || x.t == 4 || x.t == 8)) x.t = 6; if (x.t == 7 && sys) x.c /= 4; f.y[i].push_back(x); } if (none && s.draw(2)) f.y[i].push_back(Term{0, 0, 0, 2}); }
  if (par) { std::vector<int> c; for (int i = 0; i < nu; i++) c.push_back(i); for (int i = nu - 1; i > 0; i--) std::swap(c[i], c[s.draw(i + 1)]); c.resize(s.range(1, nu)); f.cond = c; }
  int q = par ? f.cond.size() : m; f.mu = rvec(s, q, 0.5); f.C = rspd(s, q, 0.05, 1.0, s.draw(2)); return f; }
GP* mk(const SF& f) { Gaussian nz(cv(f.mu), csym(f.C)); GiNaC::matrix F = f.func(); auto X = f.symx(), U = f.symu(), K = f.symc(); Sut sut; return f.cond.empty() ? new GP(F, U, X, nz) : new GP(F, U, X, nz, K); }
struct Mod { SF f; std::unique_ptr<GS> sys; std::unique_ptr<GM> meas; GP* pdf() { return (GP*)(sys ? sys->SystemPdfGet() : meas->MeasurementPdfGet()); } };
void cmp(Sim& s, const char* cls, const char* what, const ref::V& g, const ref::V& w, double rel = 1e-8) { if (g.size() != w.size()) s.fail(cls, "%s has size %d, expected %d", what, (int)g.size(), (int)w.size()); for (size_t i = 0; i < w.size(); i++) if (!close((double)g[i], (double)w[i], rel * (1 + (double)ref::scale(w)))) s.fail(cls, "%s %s, by hand %s", what, str(g).c_str(), str(w).c_str()); }
void cmp(Sim& s, const char* cls, const char* what, const ref::M& g, const ref::M& w, double rel = 1e-8) { if (g.r != w.r || g.c != w.c) s.fail(cls, "%s is %dx%d, expected %dx%d", what, g.r, g.c, w.r, w.c); for (size_t i = 0; i < w.a.size(); i++) if (!close((double)g.a[i], (double)w.a[i], rel * (1 + (double)ref::scale(w)))) s.fail(cls, "%s %s, by hand %s", what, str(g).c_str(), str(w).c_str()); }
bool regular(const ref::M& S) { ref::M P = S; for (int i = 0; i < P.r; i++) P(i, i) -= 1e-3L * ref::scale(S); return ref::scale(S) > 0 && ref::mineig_ge(P) > 0; }
struct Plain : public AnalyticConditionalGaussian { ColumnVector m; SymmetricMatrix S; Plain(const ref::V& a, const ref::M& b) : AnalyticConditionalGaussian(a.size(), 1), m(cv(a)), S(csym(b)) {} virtual ColumnVector ExpectedValueGet() const { return m; } virtual SymmetricMatrix CovarianceGet() const { return S; } virtual Plain* Clone() const { return new Plain(*this); } };
void sampled(Sim& s, const ref::V& y, const SF& f, const ref::V& x, const ref::V& u, WordStream& w2, const WordStream& used) { ref::V mn = f.f(x, u); ref::M S = f.S(x, u); Plain p(mn, S); Sample<ColumnVector> o(f.m); { UseStream us(w2); p.SampleFrom(o); } if ((int)y.size() != f.m) s.fail("simulate", "drawn value has size %d, expected %d", (int)y.size(), f.m); if (regular(S)) cmp(s, "simulate", "drawn value", y, rv(o.ValueGet()), 1e-6); else for (int i = 0; i < f.m; i++) if (!(std::fabs((double)(y[i] - mn[i])) <= 1e-6 + 10 * std::sqrt((double)S(i, i) + 1e-12))) s.fail("simulate", "drawn value %s, mean %s covariance %s", str(y).c_str(), str(mn).c_str(), str(S).c_str()); if (w2.consumed != used.consumed) s.fail("simulate-words", "consumed %llu random words, a density of this size takes %llu", (unsigned long long)used.consumed, (unsigned long long)w2.consumed); }
// every question to one density, its arguments being x and u
void ask(Sim& s, GP& d, const SF& f, const ref::V& x, const ref::V& u, WordStream& words) { int q = s.draw(6); s.probe("density_query");
  if (q == 0) { ColumnVector r; { Sut sut; r = d.ExpectedValueGet(); } cmp(s, "prediction", "expected value", rv(r), f.f(x, u)); }
  else if (q == 1) { SymmetricMatrix r; { Sut sut; r = d.CovarianceGet(); } cmp(s, "covariance", "covariance", rm(r), f.S(x, u)); }
  else if (q == 2) { Matrix r; { Sut sut; r = d.dfGet(0); } cmp(s, "jacobian", "Jacobian", rm(r), f.F(x, u)); }
  else if (q == 3) { ref::M S = f.S(x, u); if (!regular(S)) return; ref::V y = ref::add(f.f(x, u), rvec(s, f.m, 1)); for (auto& v : y) v = (ref::R)(double)v; double g; { Sut sut; g = d.ProbabilityGet(cv(y)); } double w = (double)ref::gausspdf(y, f.f(x, u), S); if (!close(g, w, 1e-7 * (1e-6 + w) + 1e-5 * w)) s.fail("density", "density %.12g, by hand %.12g", g, w); }
  else if (q == 4) { WordStream w2 = words; Sample<ColumnVector> y(f.m); { Sut sut; d.SampleFrom(y); } sampled(s, rv(y.ValueGet()), f, x, u, w2, words); }
  else { unsigned dim, na; ref::V a0, a1; { Sut sut; dim = d.DimensionGet(); na = d.NumConditionalArgumentsGet(); a0 = rv(d.ConditionalArgumentGet(0)); a1 = rv(d.ConditionalArgumentGet(1)); } if ((int)dim != f.m || na != 2) s.fail("sizes", "density has dimension %u and %u arguments, its function %d outputs", dim, na, f.m); cmp(s, "stored-argument", "argument 0", a0, x, 0); cmp(s, "stored-argument", "argument 1", a1, u, 0); cmp(s, "noise", "noise mean", rv(d.AdditiveNoiseMuGet()), f.mu, 0); cmp(s, "noise", "noise covariance", rm(d.AdditiveNoiseSigmaGet()), f.C, 0); } }
void retune(Sim& s, GP& d, SF& f) { s.fault("model_retuned"); s.ev("retune"); ref::V mu = f.mu; ref::M C = f.C; int w = s.draw(3); if (w != 1) mu = vary(s, f.mu, f.mu, 0.5); if (w != 0) C = varyspd(s, f.C, f.C, 0.05, 1.0); f.mu = mu; f.C = C; Sut sut; if (w != 1) d.AdditiveNoiseMuSet(cv(mu)); if (w != 0) d.AdditiveNoiseSigmaSet(csym(C)); }
bool same(const std::vector<GiNaC::symbol>& a, const std::vector<GiNaC::symbol>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false; return true; }
void mkmod(Mod& o, const SF& f, GP* d, bool sys) { o.f = f; Sut sut; o.sys.reset(); o.meas.reset(); if (sys) o.sys.reset(new GS(d)); else o.meas.reset(new GM(d)); }
void askmodel(Sim& s, Mod& m, const ref::V& x, const ref::V& u, WordStream& words) { const SF& f = m.f; s.probe("model_query"); ColumnVector X = cv(x), U = cv(u); int q = s.draw(7);
  if (q == 0) { ColumnVector r; { Sut sut; r = m.sys ? m.sys->PredictionGet(U, X) : m.meas->PredictionGet(U, X); } cmp(s, "prediction", "prediction of the model", rv(r), f.f(x, u)); }
  else if (q == 1) { SymmetricMatrix r; { Sut sut; r = m.sys ? m.sys->CovarianceGet(U, X) : m.meas->CovarianceGet(U, X); } cmp(s, "covariance", "covariance of the model", rm(r), f.S(x, u)); }
  else if (q == 2) { Matrix r; { Sut sut; r = m.sys ? m.sys->df_dxGet(U, X) : m.meas->df_dxGet(U, X); } cmp(s, "jacobian", "Jacobian of the model", rm(r), f.F(x, u)); }
  else if (q == 3) { WordStream w2 = words; ColumnVector y; { Sut sut; y = m.sys ? m.sys->Simulate(X, U) : m.meas->Simulate(X, U); } sampled(s, rv(y), f, x, u, w2, words); }
  else if (q == 4) { ref::M S = f.S(x, u); if (!regular(S)) return; ref::V y = ref::add(f.f(x, u), rvec(s, f.m, 1)); for (auto& v : y) v = (ref::R)(double)v; double g; { Sut sut; g = m.sys ? m.sys->ProbabilityGet(cv(y), X, U) : m.meas->ProbabilityGet(cv(y), X, U); } double w = (double)ref::gausspdf(y, f.f(x, u), S); if (!close(g, w, 1e-7 * (1e-6 + w) + 1e-5 * w)) s.fail("density", "density of the model %.12g, by hand %.12g", g, w); }
  else if (q == 5) { int sz; bool wo; { Sut sut; sz = m.sys ? m.sys->StateSizeGet() : m.meas->MeasurementSizeGet(); wo = m.sys ? m.sys->SystemWithoutInputs() : m.meas->SystemWithoutSensorParams(); } if (sz != f.m || wo) s.fail("sizes", "model reports size %d and without-inputs %d, its function has %d outputs", sz, (int)wo, f.m); }
  else { std::vector<GiNaC::symbol> sx, su, sc; GiNaC::matrix F; { Sut sut; if (m.sys) { F = m.sys->FunctionGet(); sx = m.sys->StateGet(); su = m.sys->InputGet(); sc = m.pdf()->ConditionalGet(); } else { F = m.meas->FunctionGet(); sx = m.meas->StateGet(); su = m.meas->InputGet(); sc = m.meas->ConditionalGet(); } } if (!same(sx, f.symx()) || !same(su, f.symu()) || !same(sc, f.symc())) s.fail("symbols", "the model reports other symbols than it was given"); GiNaC::matrix W = f.func(); if (F.rows() != W.rows() || F.cols() != 1) s.fail("symbols", "the model reports another function than it was given"); for (int i = 0; i < f.m; i++) if (!F(i, 0).is_equal(W(i, 0))) s.fail("symbols", "the model reports another function than it was given"); } }
// ---- densities and models by themselves
void objects(Sim& s) {
  struct D { SF f; std::unique_ptr<GP> d; ref::V x, u; bool args; }; std::vector<D> P(s.range(1, 3)); std::vector<Mod> M(s.range(1, 3)); WordStream words(s.seed64()); UseStream us(words);
  auto arg = [&](const SF& f, ref::V& x, ref::V& u) { x = rvec(s, f.n, 2); u = rvec(s, f.nu, 2); };
  for (auto& p : P) { int n = s.range(1, 5); p.f = mkfn(s, n, s.range(1, 4), s.range(0, 3), false); p.d.reset(mk(p.f)); p.args = false; }
  for (auto& m : M) { int k = s.draw(P.size()); mkmod(m, P[k].f, P[k].d.get(), s.draw(2)); }
  auto setargs = [&](D& p) { arg(p.f, p.x, p.u); p.args = true; s.ev("args"); ColumnVector X = cv(p.x), U = cv(p.u); if (s.draw(2)) { std::vector<ColumnVector> a; a.push_back(X); a.push_back(U); Sut sut; p.d->ConditionalArgumentsSet(a); } else { Sut sut; p.d->ConditionalArgumentSet(1, U); p.d->ConditionalArgumentSet(0, X); } };
  int steps = s.range(1, 25);
  for (int t = 0; t < steps; t++) { s.simtime += 1; int op = s.draw(14), a = s.draw(P.size()), b = s.draw(M.size());
    if (op < 4) { D& p = P[a]; if (!p.args || s.draw(2)) setargs(p); s.ev("ask"); ask(s, *p.d, p.f, p.x, p.u, words); if (s.draw(2)) { if (s.draw(2)) { p.x = rvec(s, p.f.n, 2); Sut sut; p.d->ConditionalArgumentSet(0, cv(p.x)); } else { p.u = rvec(s, p.f.nu, 2); Sut sut; p.d->ConditionalArgumentSet(1, cv(p.u)); } s.ev("argument"); ask(s, *p.d, p.f, p.x, p.u, words); } }
    else if (op < 8) { ref::V x, u; arg(M[b].f, x, u); s.ev("ask-model"); askmodel(s, M[b], x, u, words); }
    else if (op == 8) retune(s, *P[a].d, P[a].f);
    else if (op == 9) retune(s, *M[b].pdf(), M[b].f);
    else if (op == 10) { int c = s.draw(P.size()); s.fault("copied"); s.ev("copy", "%d to %d", a, c); GP* q; { Sut sut; if (s.draw(2)) q = (GP*)P[a].d->Clone(); else q = new GP(*P[a].d); } P[c].f = P[a].f; P[c].x = P[a].x; P[c].u = P[a].u; P[c].args = P[a].args; { Sut sut; P[c].d.reset(q); } if (P[c].args) ask(s, *P[c].d, P[c].f, P[c].x, P[c].u, words); }
    else if (op == 11) { int c = s.draw(M.size()); s.fault("model_copied"); s.ev("copy-model", "%d to %d", b, c); if (s.draw(2) && (bool)M[b].sys == (bool)M[c].sys) { M[c].f = M[b].f; Sut sut; if (M[b].sys) *M[c].sys = *M[b].sys; else *M[c].meas = *M[b].meas; } else { Mod n; n.f = M[b].f; { Sut sut; if (M[b].sys) n.sys.reset(new GS(*M[b].sys)); else n.meas.reset(new GM(*M[b].meas)); } Sut sut; M[c] = std::move(n); } }
    else if (op == 12) { s.fault("model_recreated"); s.ev("remodel"); mkmod(M[b], P[a].f, P[a].d.get(), s.draw(2)); }
    else { s.fault("caller_object_destroyed"); s.ev("recreate"); int n = s.range(1, 5); SF f = mkfn(s, n, s.range(1, 4), s.range(0, 3), false); { Sut sut; P[a].d.reset(); } P[a].f = f; P[a].d.reset(mk(f)); P[a].args = false; }
  }
}
// ---- create, use, destroy: memory must not grow
void cycles(Sim& s) { int n = s.range(1, 4); SF f = mkfn(s, n, s.range(1, 3), s.range(0, 3), false); bool sys = s.draw(2), copy = s.draw(2), assign = s.draw(2); ref::V x = rvec(s, n, 2), u = rvec(s, f.nu, 2); WordStream words(s.seed64()); UseStream us(words); std::vector<long> live; ColumnVector X = cv(x), U = cv(u); GiNaC::matrix F = f.func(); auto sx = f.symx(), su = f.symu(), sc = f.symc(); Gaussian nz(cv(f.mu), csym(f.C));
  sim::track_begin(); for (int c = 0; c < 6; c++) { s.ev("cycle"); { Sut sut; std::unique_ptr<GP> d(f.cond.empty() ? new GP(F, su, sx, nz) : new GP(F, su, sx, nz, sc)); std::unique_ptr<GS> S, S2; std::unique_ptr<GM> M, M2; if (sys) S.reset(new GS(d.get())); else M.reset(new GM(d.get())); if (copy) { if (sys) S2.reset(new GS(*S)); else M2.reset(new GM(*M)); std::unique_ptr<ConditionalPdf<ColumnVector, ColumnVector> > e(d->Clone()); } if (assign && copy) { if (sys) *S2 = *S; else *M2 = *M; } if (S2) S2->PredictionGet(U, X); if (M2) M2->PredictionGet(U, X); if (sys) { S->PredictionGet(U, X); S->df_dxGet(U, X); } else { M->PredictionGet(U, X); M->CovarianceGet(U, X); } } live.push_back(sim::track_live()); } sim::track_end(); s.probe("lifetime_cycles"); s.fault("model_recreated");
  if (live[3] > live[2] && live[4] > live[3] && live[5] > live[4]) s.fail("leak", "every create/use/destroy cycle of a symbolic %s model leaves memory behind: %ld %ld %ld %ld blocks", sys ? "system" : "measurement", live[2], live[3], live[4], live[5]); }
// ---- filters running on symbolic models
struct Z { int k; ref::V z, u; };
void filter(Sim& s) {
  int n = s.range(1, 4), nsens = s.range(1, 2), nsys = 1 + s.draw(2), kind = s.draw(2), iters = s.range(1, 3), nu = s.range(0, 3);
  std::vector<Mod> sys(nsys), sens(nsens); auto make = [&](Mod& m, const SF& f, bool sy) { std::unique_ptr<GP> d(mk(f)); mkmod(m, f, d.get(), sy); };   // the caller's density is gone once the model exists
  for (auto& m : sys) make(m, mkfn(s, n, n, nu, true), true); for (auto& m : sens) make(m, mkfn(s, n, s.range(1, 3), s.range(0, 3), false), false);
  ref::Belief b; b.m = rvec(s, n, 3); b.P = rspd(s, n, 0.1, 4, s.draw(2)); ref::Belief stored = b; std::unique_ptr<Gaussian> prior; std::unique_ptr<KalmanFilter> flt; WordStream words(s.seed64()); UseStream us(words);
  auto build = [&](const ref::Belief& x) { std::unique_ptr<Gaussian> np(new Gaussian(cv(x.m), csym(x.P))); if (flt && s.draw(2)) { { Sut sut; flt->Reset(np.get()); } prior = std::move(np); return; } flt.reset(); prior = std::move(np); if (kind == 0) flt.reset(new ExtendedKalmanFilter(prior.get())); else flt.reset(new IteratedExtendedKalmanFilter(prior.get(), iters)); };
  build(b); Prng noise(s.seed64()); Link link(s); ref::V truth = ref::add(b.m, gaussvec(noise, b.P)); int ticks = s.range(1, 12); std::vector<ref::V> us_; std::vector<Z> zs; unsigned pout = s.config >= 1 && s.draw(2) ? 60 : 0, pcrash = s.config >= 1 && s.draw(2) ? 60 : 0, ptune = s.draw(2) ? 150 : 0, pre = s.draw(2) ? 100 : 0, pq = s.draw(2) ? 300 : 0;
  enum { PREDICT, MEAS, BOTH };
  for (int t = 0; t < ticks && ref::scale(truth) < 1e3; t++) { ref::V u = rvec(s, nu, 1); int si = s.draw(nsys); us_.push_back(u); int ui = us_.size() - 1; truth = ref::add(sys[si].f.f(truth, u), gaussvec(noise, sys[si].f.S(truth, u))); bool merged = false;
    for (int k = 0; k < nsens; k++) if (s.draw(3)) { const SF& f = sens[k].f; Z z; z.k = k; z.u = rvec(s, f.nu, 1); z.z = ref::add(f.f(truth, z.u), gaussvec(noise, f.S(truth, z.u))); if (pout && s.chance(pout)) { s.fault("outlier"); for (auto& v : z.z) v += 20; } for (auto& v : z.z) v = (ref::R)(double)v; zs.push_back(z); if (!merged && s.chance(300)) { merged = true; link.send(t, BOTH, ui * 4 + si, zs.size() - 1); } else link.send(t + 0.1 * (k + 1), MEAS, k, zs.size() - 1); }
    if (!merged) link.send(t, PREDICT, ui * 4 + si, 0); }
  auto cur = [&]() { return belief(*flt->PostGet()); };
  // reference correction; false: the innovation covariance is (nearly) singular, the measurement is not delivered
  auto correct = [&](const ref::Belief& p, const Z& z, ref::Belief& o) { const SF& f = sens[z.k].f; ref::V x = p.m; o = p; for (int i = 0; i < (kind ? iters : 1); i++) { ref::M H = f.F(x, z.u), R = f.S(x, z.u); if (!regular(ref::add(ref::mul(ref::mul(H, p.P), ref::tr(H)), R))) return false; o = ref::kf_correct(p, z.z, ref::add(f.f(x, z.u), ref::mul(H, ref::add(p.m, x, -1))), H, R); x = o.m; } return true; };
  Msg m; int steps = 0;
  while (link.next(m) && steps++ < 80) {
    if (ptune && s.chance(ptune)) { Mod& k = s.draw(2) ? sys[s.draw(nsys)] : sens[s.draw(nsens)]; retune(s, *k.pdf(), k.f); }
    if (pre && s.chance(pre)) { s.fault("model_recreated"); s.ev("remodel"); Mod& k = s.draw(2) ? sys[s.draw(nsys)] : sens[s.draw(nsens)]; bool sy = (bool)k.sys; if (s.draw(2)) make(k, k.f, sy); else { std::unique_ptr<GP> d; { Sut sut; d.reset((GP*)k.pdf()->Clone()); } mkmod(k, k.f, d.get(), sy); } }
    if (pcrash && s.chance(pcrash)) { s.fault("crash_restart"); s.ev("crash"); build(stored); cmp_belief(s, "restart", cur(), stored, 1e-12); }
    ref::Belief want = cur(); bool amb = false; Mod* sm = m.kind == MEAS ? 0 : &sys[m.id % 4]; const ref::V* u = m.kind == MEAS ? 0 : &us_[m.id / 4]; const Z* z = m.kind == PREDICT ? 0 : &zs[m.ref];
    if (sm) want = ref::kf_predict(want, sm->f.f(want.m, *u), sm->f.F(want.m, *u), sm->f.S(want.m, *u));
    if (z) { ref::Belief near = want, o; if (!correct(want, *z, o)) { s.probe("singular_skipped"); continue; } want = o; for (auto& v : near.m) v += 1e-12L * (1 + std::fabs((double)v)); for (int i = 0; i < n; i++) near.P(i, i) *= 1 + 1e-12L; if (!correct(near, *z, o)) continue; ref::R d = ref::scale(ref::add(o.m, want.m, -1)); if (d > 1e-9 * (1 + ref::scale(want.m)) || ref::scale(ref::add(o.P, want.P, -1)) > 1e-9 * (1e-3 + ref::scale(want.P))) { amb = true; s.probe("ill_conditioned"); } }
    ColumnVector zu, zz, zp; if (u) zu = cv(*u); if (z) { zz = cv(z->z); zp = cv(z->u); } bool ok; const char* what;
    { Sut sut; if (m.kind == PREDICT) { what = "predict"; ok = flt->Update(sm->sys.get(), zu); } else if (m.kind == MEAS) { what = "measurement"; ok = flt->Update(sens[z->k].meas.get(), zz, zp); } else { what = "combined"; ok = flt->Update(sm->sys.get(), zu, sens[z->k].meas.get(), zz, zp); } }
    s.ev(what, "t=%.2f model=%d u=%s z=%s", m.at, m.id, u ? str(*u).c_str() : "-", z ? str(z->z).c_str() : "-"); if (!ok) s.fail("update-refused", "%s update returned false", what);
    ref::Belief got = cur(); if (!amb) cmp_belief(s, what, got, want, 1e-7);
    if (pq && s.chance(pq)) { Mod& k = s.draw(2) ? sys[s.draw(nsys)] : sens[s.draw(nsens)]; s.ev("query"); ref::V x = rvec(s, n, 2), v = rvec(s, k.f.nu, 1); askmodel(s, k, x, v, words); cmp_belief(s, "after query", cur(), got, 1e-15); }
    if (ref::scale(got.m) > 1e3 || ref::scale(got.P) > 1e4) { s.probe("plant_diverged_stop"); break; } if (pcrash && s.chance(200)) { stored = got; s.ev("checkpoint"); }
  }
}
}
SCENARIO(C22, 2) { pool(); switch (s.draw(5)) { case 0: case 1: objects(s); break; case 2: if (s.draw(4) == 0) { cycles(s); break; } default: filter(s); } }
