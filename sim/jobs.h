// Jobs: self-contained histories over one library object (a filter, smoother or density) whose every
// parameter is a function of (seed, step). Used where a property compares a history with itself under a
// different environment: other threads (C11), failed allocations (C12), lifetimes (C13), memory state (C17).
#ifndef JOBS_H
#define JOBS_H
#include "bflcommon.h"
#include "pmodels.h"
namespace W {
struct Out { std::vector<double> v; void a(double x) { sim::NoSut n; v.push_back(x); } void a(const ref::V& x) { for (auto y : x) a((double)y); } void a(const ref::M& x) { for (auto y : x.a) a((double)y); } void a(const Parts& p) { for (auto& q : p) { a(q.x); a(q.w); } } void a(const Key& k) { for (double x : k) a(x); }
  void a(const std::vector<Probability>& p) { for (auto x : p) a((double)x); } };
inline bool same(const Out& a, const Out& b) { return a.v.size() == b.v.size() && (a.v.empty() || memcmp(&a.v[0], &b.v[0], a.v.size() * sizeof(double)) == 0); }
inline bool near1(double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)) || std::fabs(x - y) <= 1e-9 * (1 + std::fabs(x)); }
// equal up to rounding (where two code paths may legitimately round differently)
inline bool alike(const Out& a, const Out& b) { if (a.v.size() != b.v.size()) return false; for (size_t i = 0; i < a.v.size(); i++) if (!near1(a.v[i], b.v[i])) return false; return true; }
inline size_t farthest(const Out& a, const Out& b) { size_t i = 0; while (i < a.v.size() && i < b.v.size() && near1(a.v[i], b.v[i])) i++; return i; }
inline size_t firstdiff(const Out& a, const Out& b) { size_t i = 0; while (i < a.v.size() && i < b.v.size() && memcmp(&a.v[i], &b.v[i], 8) == 0) i++; return i; }
inline Sim par(uint64_t seed, uint64_t i) { sim::NoSut ns; Sim p; p.p = Prng(sim::mix64(seed ^ sim::mix64(i + 77))); return p; }
struct Job {
  uint64_t seed; WordStream words; Env env; const char* name; bool deterministic;   // deterministic: steps need no random words
  bool watch, argmod; Out pre;                     // watch: record the callers' fingerprint right before every library call
  explicit Job(uint64_t s) : seed(s), words(sim::mix64(s ^ 5)), env(sim::mix64(s ^ 9)), name("?"), deterministic(false), watch(false), argmod(false) {}
  void look() { if (!watch) return; sim::NoSut ns; pre.v.clear(); callers(pre); }
  virtual ~Job() {}
  void restream(uint64_t x) { words = WordStream(sim::mix64(seed ^ x)); env.noise = Prng(sim::mix64(seed ^ x ^ 3)); env.ctr = 0; env.log.clear(); }
  virtual void build(int belief) = 0;      // construct the library objects
  virtual void step(int i, Out& o) = 0;    // one operation and its results
  virtual void observe(Out& o) = 0;        // full observable state
  virtual void rebelief(int belief) = 0;   // hand the existing object a new belief
  virtual void callers(Out& o) { (void)o; }        // fingerprint of everything the caller supplied and still owns
  virtual void drop() = 0;                 // destroy the library objects
  virtual bool quiet(int) { return deterministic; }  // step i needs no random words
  // lifetime operations (C13)
  virtual bool mangle() { return false; }          // the caller overwrites the prior (or components) it had handed in
  virtual bool freeprior() { return false; }       // the caller destroys it
  virtual void freecallers() {}                    // the caller destroys everything it owns; only drop() may follow
  virtual bool remodel() { return false; }         // the caller destroys its model objects and makes new ones over the same densities
  virtual bool selfreset() { return false; }       // the object is given its own current belief
  virtual void belief(Out& o) { observe(o); }      // observable state without the time step
  virtual Job* fork(int how) { (void)how; return 0; } // an independent job over a clone, copy or assignment of the object
};
// fingerprints an argument of a library call before and after it: the library must leave it as it was
inline void fpr(Out& o, const std::vector<Probability>& v) { o.a((double)v.size()); o.a(v); }
inline void fpr(Out& o, const ColumnVector& v) { o.a(rv(v)); } inline void fpr(Out& o, const Matrix& v) { o.a(rm(v)); } inline void fpr(Out& o, const SymmetricMatrix& v) { o.a(rm(v)); }
template <class T> void fpr(Out& o, const std::vector<WeightedSample<T> >& v) { o.a((double)v.size()); for (auto& x : v) { o.a(TT<T>::key(x.ValueGet())); o.a(x.WeightGet()); } }
template <class T> void fpr(Out& o, const std::vector<Sample<T> >& v) { o.a((double)v.size()); for (auto& x : v) o.a(TT<T>::key(x.ValueGet())); }
inline void fpr(Out& o, const Pdf<ColumnVector>& d) { const ColumnVector x = cv(ref::V(d.DimensionGet(), 0.25L)); o.a((double)d.DimensionGet()); o.a((double)d.ProbabilityGet(x)); }
inline void fpr(Out& o, const std::vector<Matrix>& v) { for (auto& m : v) o.a(rm(m)); }
inline void fpr(Out& o, const std::vector<int>& v) { for (int x : v) o.a((double)x); }
template <class X> struct Arg { Job& j; const X& x; Out b; Arg(Job& j_, const X& x_) : j(j_), x(x_) { if (j.watch) { sim::NoSut n; fpr(b, x); } } ~Arg() { if (j.watch) { sim::NoSut n; Out a; fpr(a, x); if (!same(a, b)) j.argmod = true; } } };
Job* mk_kalman(uint64_t seed); Job* mk_particle(uint64_t seed); Job* mk_mixture(uint64_t seed); Job* mk_hist(uint64_t seed); Job* mk_smooth(uint64_t seed); Job* mk_ekpf(uint64_t seed); Job* mk_density(uint64_t seed); Job* mk_density2(uint64_t seed);
inline Job* mkjob(int k, uint64_t seed) { switch (k) { case 0: return mk_kalman(seed); case 1: return mk_particle(seed); case 2: return mk_mixture(seed); case 3: return mk_hist(seed); case 4: return mk_smooth(seed); case 5: return mk_ekpf(seed); case 6: return mk_density(seed); default: return mk_density2(seed); } }
const int NJOBS = 8;
}
#endif
