// Deterministic simulator core: choice stream, event log, random-word seam, allocator seam,
// thread scheduler seam. One choice sequence = one exactly repeatable execution.
#ifndef SIMCORE_H
#define SIMCORE_H
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <cmath>

namespace sim {

struct Violation { std::string cls, msg; };

inline uint64_t mix64(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
struct Prng { uint64_t s; explicit Prng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  double uni() { return ((next() >> 11) + 0.5) * (1.0 / 9007199254740992.0); }
  double gauss() { double a = uni(), b = uni(); return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
};

// The library's random words come from the "current stream".
struct WordStream {
  Prng p; uint64_t consumed;
  int mode;                 // 0: plain, 1: extreme words injected with probability `inj`/1000
  uint32_t inj;
  std::vector<uint32_t> script; size_t pos;   // explicit leading words
  uint64_t extremes;
  WordStream() : p(1), consumed(0), mode(0), inj(0), pos(0), extremes(0) {}
  explicit WordStream(uint64_t seed) : p(seed), consumed(0), mode(0), inj(0), pos(0), extremes(0) {}
  uint32_t word();
};
WordStream* set_stream(WordStream*);   // returns previous (thread local)
WordStream* cur_stream();
struct UseStream { WordStream* old; explicit UseStream(WordStream& w) : old(set_stream(&w)) {} ~UseStream() { set_stream(old); } };

// ---- allocator seam -------------------------------------------------------------------------
struct AllocCtl {
  bool in_sut;            // allocations count as library allocations
  long fail_at;           // fail when countdown hits zero (0 = off)
  long count;             // library allocations seen since arm()
  bool fired;
  bool fail_forever;      // keep failing until disarmed
};
extern thread_local AllocCtl g_alloc;
extern bool g_fail_malloc;                // inject into malloc/calloc/realloc too (default), or only into operator new
void alloc_fill(int byte);                 // pattern for fresh memory, -1 = leave
struct Sut {                                 // scope of a library call
  bool old; Sut() : old(g_alloc.in_sut) { g_alloc.in_sut = true; } ~Sut() { g_alloc.in_sut = old; } };
struct NoSut { bool old; NoSut() : old(g_alloc.in_sut) { g_alloc.in_sut = false; } ~NoSut() { g_alloc.in_sut = old; } };
void arm_alloc(long k, bool forever = false); // fail the k-th library allocation from now
bool disarm_alloc();                       // returns whether it fired
void track_begin();                        // start leak accounting of library allocations
long track_live();                         // blocks allocated by the library since track_begin still live
void track_end();

// ---- time and environment seam: inside library calls clocks, process id, environment variables and foreign
// random sources answer from this value (0 = fixed answers); calls are counted
extern uint64_t g_envseed; extern uint64_t g_envcalls;
void scribble_stack(int byte);             // overwrite the unused stack below the caller

// ---- simulation context ---------------------------------------------------------------------
struct Sim {
  std::vector<uint64_t> choices;   // recorded or to replay
  size_t pos; bool replay; Prng p;
  int config;                      // 0 fault-free, 1 faults
  bool verbose;
  uint64_t hash, shape;            // full event hash / shape-only hash
  uint64_t events; double simtime;
  std::map<std::string, uint64_t> stats;   // faults injected, probes hit
  std::vector<std::string> trace;
  Sim() : pos(0), replay(false), p(0), config(0), verbose(false), hash(1469598103934665603ull), shape(7), events(0), simtime(0) {}
  uint64_t draw(uint64_t n);
  bool chance(unsigned permille) { return draw(1000) >= 1000 - permille; }
  int range(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo + 1)); }
  double real(double lo, double hi) { return lo + (hi - lo) * (double)draw(1u << 20) / (double)(1u << 20); }
  double sym(double a) { uint64_t k = draw(1u << 20); double v = a * (double)(k >> 1) / (double)(1u << 19); return (k & 1) ? -v : v; }
  uint64_t seed64() { return mix64(draw(1ull << 40) + 12345); }
  void ev(const char* kind, const char* fmt = "", ...) __attribute__((format(printf, 3, 4)));
  void h(double v) { uint64_t b; if (v == 0) v = 0; memcpy(&b, &v, 8); h64(b); }
  void h64(uint64_t v) { hash = (hash ^ v) * 1099511628211ull; hash ^= hash >> 29; }
  void fault(const char* k) { stats[std::string("fault.") + k]++; }
  void probe(const char* k) { stats[std::string("probe.") + k]++; }
  void fail(const std::string& cls, const char* fmt, ...) __attribute__((format(printf, 3, 4), noreturn));
};
extern Sim* g_sim;

// ---- thread scheduler seam ------------------------------------------------------------------
// Real threads, parked and released one at a time; preemption points are the basic blocks of
// instrumented (library) code, random draws and allocations. The Sim decides who runs.
struct TaskSpec { std::function<void()> fn; WordStream* words; };
struct SchedStats { uint64_t switches, edges; };
SchedStats run_interleaved(Sim& s, std::vector<TaskSpec>& tasks, int maxswitch, int gapclass);
extern thread_local int g_noyield;
struct NoYield { NoYield() { g_noyield++; } ~NoYield() { g_noyield--; } };

typedef void (*Scenario)(Sim&);
struct Reg { Reg(const char* id, Scenario f, int configs); };
#define SCENARIO(ID, CONFIGS) static void scen_##ID(sim::Sim& s); static sim::Reg reg_##ID(#ID, scen_##ID, CONFIGS); static void scen_##ID(sim::Sim& s)
}
#endif
