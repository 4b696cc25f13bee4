#ifndef DMODELS_H
#define DMODELS_H
#include "bflcommon.h"
#include <pdf/discretepdf.h>
#include <pdf/discreteconditionalpdf.h>
#include <model/discretesystemmodel.h>
#include <model/measurementmodel.h>
#include <filter/histogramfilter.h>
namespace W {
using namespace BFL;
typedef std::vector<ref::R> DV;
inline DV probs(const DiscretePdf& d) { std::vector<Probability> v = d.ProbabilitiesGet(); DV o; for (size_t i = 0; i < v.size(); i++) o.push_back((double)v[i]); return o; }
inline std::vector<Probability> pv(const DV& v) { std::vector<Probability> o; for (auto x : v) o.push_back(Probability((double)x)); return o; }
inline DV dnorm(DV v) { ref::R s = 0; for (auto x : v) s += x; for (auto& x : v) x /= s; return v; }
inline void cmp_probs(Sim& s, const char* what, const char* cls, const DV& got, const DV& want, double tol = 1e-9) {
  if (got.size() != want.size()) s.fail(std::string(cls) + "-size", "%s: %zu probabilities, expected %zu", what, got.size(), want.size());
  ref::R t = 0; for (size_t i = 0; i < got.size(); i++) { t += got[i]; if (!(got[i] >= 0)) s.fail("negative-probability", "%s: probability of state %zu is %g", what, i, (double)got[i]); if (!close((double)got[i], (double)want[i], tol)) s.fail(cls, "%s: state %zu has probability %.12g, expected %.12g", what, i, (double)got[i], (double)want[i]); }
  if (std::fabs((double)t - 1) > 1e-9) s.fail("not-normalised", "%s: probabilities sum to %.12g", what, (double)t);
}
inline DV rdist(Sim& s, int n, unsigned pzero) { DV v(n); ref::R t = 0; for (auto& x : v) { x = s.chance(pzero) ? 0.0L : (s.chance(60) ? 1e-9L : (ref::R)s.real(0.02, 1)); t += x; } if (t <= 0) v[s.draw(n)] = 1; return dnorm(v); }
// conditional table: states x args ; row(args) is a distribution over states
struct Table { int n; std::vector<int> dims; std::vector<DV> rows; // rows indexed by mixed radix of args
  size_t idx(const std::vector<int>& a) const { size_t i = 0, b = 1; for (size_t k = 0; k < dims.size(); k++) { i += a[k] * b; b *= dims[k]; } return i; }
  const DV& row(const std::vector<int>& a) const { return rows[idx(a)]; } };
inline Table rtable(Sim& s, int n, const std::vector<int>& dims, unsigned pzero) { Table t; t.n = n; t.dims = dims; size_t k = 1; for (int d : dims) k *= d; for (size_t i = 0; i < k; i++) { DV r = rdist(s, n, pzero); for (auto& x : r) x = (ref::R)(double)x; t.rows.push_back(r); } return t; }
inline DiscreteConditionalPdf* mkcond(const Table& t) {
  std::vector<int> d = t.dims; DiscreteConditionalPdf* p = new DiscreteConditionalPdf(t.n, d.size(), d.data());
  std::vector<int> a(d.size(), 0); for (size_t i = 0; i < t.rows.size(); i++) { size_t k = i; for (size_t j = 0; j < d.size(); j++) { a[j] = k % d[j]; k /= d[j]; } for (int x = 0; x < t.n; x++) p->ProbabilitySet((double)t.rows[i][x], x, a); }
  return p; }
}
#endif
