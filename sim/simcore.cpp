// Built without coverage instrumentation. See simcore.h.
#include "simcore.h"
#include <new>
#include <cstdlib>
#include <cerrno>
#include <csignal>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <memory>
#include <algorithm>
#include <iostream>
#include <sstream>

namespace sim {

// ------------------------------------------------------------------ random words
static thread_local WordStream* tl_stream = 0;
WordStream* set_stream(WordStream* w) { WordStream* o = tl_stream; tl_stream = w; return o; }
WordStream* cur_stream() { return tl_stream; }
uint32_t WordStream::word() {
  consumed++;
  if (pos < script.size()) return script[pos++];
  uint64_t v = p.next();
  if (mode == 1 && inj && (v >> 40) % 1000 < inj) {
    extremes++;
    switch ((v >> 8) % 4) { case 0: return 0u; case 1: return 0xffffffffu; case 2: return 1u; default: return 0xfffffffeu; }
  }
  return (uint32_t)(v >> 32);
}

// ------------------------------------------------------------------ time and environment seam
uint64_t g_envseed = 0, g_envcalls = 0;
static uint64_t envval() { g_envcalls++; return g_envseed ? mix64(g_envseed ^ g_envcalls) : 0; }
__attribute__((noinline)) void scribble_stack(int byte) { volatile char buf[96 * 1024]; for (size_t i = 0; i < sizeof buf; i++) buf[i] = (char)byte; }

// ------------------------------------------------------------------ choice stream
Sim* g_sim = 0;
}
uint64_t* g_mirror = 0; int g_tracefd = -1;   // crash-proof copies of choices / trace
namespace sim {
uint64_t Sim::draw(uint64_t n) {
  if (n <= 1) return 0;
  uint64_t v;
  if (replay) { v = pos < choices.size() ? choices[pos] : 0; if (v >= n) v = n - 1; pos++; }
  else { v = p.next() % n; { NoSut ns; choices.push_back(v); } pos++; if (g_mirror) { g_mirror[1 + g_mirror[0]] = v; g_mirror[0]++; } }
  return v;
}
void Sim::ev(const char* kind, const char* fmt, ...) {
  NoSut ns; NoYield ny;
  events++;
  for (const char* c = kind; *c; c++) { hash = (hash ^ (unsigned char)*c) * 1099511628211ull; shape = (shape ^ (unsigned char)*c) * 1099511628211ull; }
  shape = (shape ^ 0x1f) * 1099511628211ull;
  if (verbose && trace.size() < 4000) {
    char buf[600]; int k = snprintf(buf, 512, "%llu %s ", (unsigned long long)events, kind);
    va_list ap; va_start(ap, fmt); vsnprintf(buf + k, 512 - k, fmt, ap); va_end(ap);
    trace.push_back(buf);
    if (g_tracefd >= 0) { strncat(buf, "\n", 2); if (write(g_tracefd, buf, strlen(buf)) < 0) {} }
  }
}
void Sim::fail(const std::string& cls, const char* fmt, ...) {
  NoSut ns; NoYield ny;
  char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  throw Violation{cls, buf};
}

// ------------------------------------------------------------------ allocator seam
bool g_fail_malloc = true;
thread_local AllocCtl g_alloc = {false, 0, 0, false, false};
static int g_fill = -1;
void alloc_fill(int b) { g_fill = b; }
static bool g_track = false;
static void** tab = 0; static size_t tabcap = 0, tabn = 0; static long tablive = 0;
}
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
}
#include <sys/time.h>
extern "C" {
time_t __real_time(time_t*); clock_t __real_clock(void); int __real_gettimeofday(struct timeval*, void*); int __real_clock_gettime(clockid_t, struct timespec*); int __real_rand(void); long __real_random(void); double __real_drand48(void); long __real_lrand48(void); char* __real_getenv(const char*); pid_t __real_getpid(void);
int64_t __real__ZNSt6chrono3_V212system_clock3nowEv(void); int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv(void); unsigned __real__ZNSt13random_device9_M_getvalEv(void*);
#define SUT sim::g_alloc.in_sut
time_t __wrap_time(time_t* o) { if (!SUT) return __real_time(o); time_t v = 1700000000 + sim::envval() % 100000000; if (o) *o = v; return v; }
clock_t __wrap_clock(void) { return SUT ? (clock_t)(sim::envval() % 1000000000) : __real_clock(); }
int __wrap_gettimeofday(struct timeval* v, void* z) { if (!SUT) return __real_gettimeofday(v, z); v->tv_sec = 1700000000 + sim::envval() % 100000000; v->tv_usec = sim::envval() % 1000000; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec* v) { if (!SUT) return __real_clock_gettime(c, v); v->tv_sec = sim::envval() % 100000000; v->tv_nsec = sim::envval() % 1000000000; return 0; }
int __wrap_rand(void) { return SUT ? (int)(sim::envval() & 0x7fffffff) : __real_rand(); }
long __wrap_random(void) { return SUT ? (long)(sim::envval() & 0x7fffffff) : __real_random(); }
double __wrap_drand48(void) { return SUT ? (sim::envval() >> 11) / 9007199254740992.0 : __real_drand48(); }
long __wrap_lrand48(void) { return SUT ? (long)(sim::envval() & 0x7fffffff) : __real_lrand48(); }
char* __wrap_getenv(const char* n) { if (!SUT) return __real_getenv(n); static char one[] = "1"; return sim::envval() & 1 ? one : 0; }
pid_t __wrap_getpid(void) { return SUT ? (pid_t)(2 + sim::envval() % 30000) : __real_getpid(); }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv(void) { return SUT ? (int64_t)(sim::envval() >> 2) : __real__ZNSt6chrono3_V212system_clock3nowEv(); }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv(void) { return SUT ? (int64_t)(sim::envval() >> 2) : __real__ZNSt6chrono3_V212steady_clock3nowEv(); }
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* t) { return SUT ? (unsigned)sim::envval() : __real__ZNSt13random_device9_M_getvalEv(t); }
}
namespace sim {
static pthread_mutex_t tabmx = PTHREAD_MUTEX_INITIALIZER;
static size_t tslot(void* p) { return (size_t)(mix64((uint64_t)p) & (tabcap - 1)); }
static void tab_add(void* p) {
  if ((tabn + 1) * 2 > tabcap) {
    size_t nc = tabcap ? tabcap * 2 : 1 << 16; void** ot = tab; size_t oc = tabcap;
    tab = (void**)__real_calloc(nc, sizeof(void*)); tabcap = nc; tabn = 0;
    for (size_t i = 0; i < oc; i++) if (ot[i] && ot[i] != (void*)1) { size_t k = tslot(ot[i]); while (tab[k]) k = (k + 1) & (nc - 1); tab[k] = ot[i]; tabn++; }
    __real_free(ot);
  }
  size_t k = tslot(p); while (tab[k] && tab[k] != (void*)1) k = (k + 1) & (tabcap - 1);
  if (!tab[k]) tabn++;
  tab[k] = p; tablive++;
}
static void tab_del(void* p) {
  if (!tabcap) return;
  size_t k = tslot(p); while (tab[k]) { if (tab[k] == p) { tab[k] = (void*)1; tablive--; return; } k = (k + 1) & (tabcap - 1); }
}
void track_begin() { __real_pthread_mutex_lock(&tabmx); if (tab) memset(tab, 0, tabcap * sizeof(void*)); tabn = 0; tablive = 0; g_track = true; pthread_mutex_unlock(&tabmx); }
long track_live() { return tablive; }
void track_end() { g_track = false; }
void arm_alloc(long k, bool forever) { g_alloc.fail_at = k; g_alloc.count = 0; g_alloc.fired = false; g_alloc.fail_forever = forever; }
bool disarm_alloc() { g_alloc.fail_at = 0; return g_alloc.fired; }

void maybe_yield();
static inline bool should_fail(bool c = false) {
  if (!g_alloc.in_sut || (c && !g_fail_malloc)) return false;
  g_alloc.count++;
  if (g_alloc.fail_at) {
    if (g_alloc.count == g_alloc.fail_at || (g_alloc.fired && g_alloc.fail_forever)) { g_alloc.fired = true; return true; }
  }
  return false;
}
static inline void note_new(void* p, size_t n) {
  if (!p) return;
  if (g_fill >= 0 && g_alloc.in_sut) memset(p, g_fill, n);
  if (g_track && g_alloc.in_sut) { __real_pthread_mutex_lock(&tabmx); tab_add(p); pthread_mutex_unlock(&tabmx); }
}
static inline void note_del(void* p) {
  if (p && g_track) { __real_pthread_mutex_lock(&tabmx); tab_del(p); pthread_mutex_unlock(&tabmx); }
}
}
extern "C" {
void* __wrap_malloc(size_t n) { if (sim::should_fail(true)) return 0; void* p = __real_malloc(n); sim::note_new(p, n); return p; }
void __wrap_free(void* p) { sim::note_del(p); __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { if (sim::should_fail(true)) return 0; void* p = __real_calloc(a, b); if (p && sim::g_track && sim::g_alloc.in_sut) { int f = sim::g_fill; sim::g_fill = -1; sim::note_new(p, a * b); sim::g_fill = f; } return p; }
void* __wrap_realloc(void* q, size_t n) { if (sim::should_fail(true)) return 0; sim::note_del(q); void* p = __real_realloc(q, n); int f = sim::g_fill; sim::g_fill = -1; sim::note_new(p, n); sim::g_fill = f; return p; }
int __wrap_posix_memalign(void** o, size_t al, size_t n) { if (sim::should_fail()) return ENOMEM; int r = __real_posix_memalign(o, al, n); if (!r) sim::note_new(*o, n); return r; }
}
void* operator new(size_t n) { if (sim::should_fail()) throw std::bad_alloc(); void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); sim::note_new(p, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return 0; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return 0; } }
void operator delete(void* p) noexcept { sim::note_del(p); __real_free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ------------------------------------------------------------------ scheduler
namespace sim {
thread_local int g_noyield = 0;
static thread_local int tl_task = -1;
struct Sched {
  Sim* s; std::vector<TaskSpec>* tasks; std::vector<sem_t> sems; sem_t mainsem; std::vector<bool> done;
  long countdown; int switches, maxswitch, gapclass; uint64_t edges; std::vector<std::exception_ptr> exc; bool violated; Violation viol;
  int cur;
};
static Sched* SC = 0;
static long next_gap() {
  Sched& c = *SC;
  if (c.switches >= c.maxswitch) return -1;
  uint64_t r = c.s->draw(1000);
  switch (c.gapclass) {
    case 0: return 1 + (long)(r % 12);
    case 1: return 1 + (long)(r * r / 5000);      // up to 200
    case 2: return 1 + (long)(r * r / 200);       // up to 5000
    default: return 1 + (long)(r * r * r / 20000); // up to 50000
  }
}
static int pick(bool excludecur) {
  Sched& c = *SC; std::vector<int> r;
  for (size_t i = 0; i < c.done.size(); i++) if (!c.done[i] && !(excludecur && (int)i == c.cur)) r.push_back((int)i);
  if (r.empty()) return -1;
  return r[c.s->draw(r.size())];
}
static void switch_to(int nxt) {
  Sched& c = *SC; int me = c.cur; if (nxt < 0 || nxt == me) return;
  c.cur = nxt; sem_post(&c.sems[nxt]);
  while (sem_wait(&c.sems[me]) != 0) {}
}
void maybe_yield() {
  Sched* c = SC; if (!c || tl_task < 0 || g_noyield) return;
  c->edges++;
  if (c->countdown < 0) return;
  if (--c->countdown > 0) return;
  g_noyield++; { NoSut ns;
  c->switches++;
  int n = pick(true);
  c->countdown = next_gap();
  if (n >= 0) { c->s->ev("switch"); c->s->h64(n); switch_to(n); } }
  g_noyield--;
}
static void force_yield() {
  Sched* c = SC; if (!c || tl_task < 0) { sched_yield(); return; }
  g_noyield++; { NoSut ns; int n = pick(true); if (n >= 0) switch_to(n); } g_noyield--;
}
static void* task_main(void* a) {
  long id = (long)a; Sched& c = *SC;
  while (sem_wait(&c.sems[id]) != 0) {}
  tl_task = (int)id; set_stream((*c.tasks)[id].words);
  try { (*c.tasks)[id].fn(); } catch (Violation& v) { if (!c.violated) { c.violated = true; c.viol = v; } } catch (...) { c.exc[id] = std::current_exception(); }
  g_noyield++; tl_task = -1; set_stream(0);
  c.done[id] = true;
  int n = pick(false);
  if (n >= 0) { c.cur = n; sem_post(&c.sems[n]); } else sem_post(&c.mainsem);
  return 0;
}
SchedStats run_interleaved(Sim& s, std::vector<TaskSpec>& tasks, int maxswitch, int gapclass) {
  Sched c; c.s = &s; c.tasks = &tasks; c.sems.resize(tasks.size()); c.done.assign(tasks.size(), false); c.exc.resize(tasks.size());
  c.switches = 0; c.maxswitch = maxswitch; c.gapclass = gapclass; c.edges = 0; c.violated = false; c.cur = -1;
  sem_init(&c.mainsem, 0, 0); for (size_t i = 0; i < tasks.size(); i++) sem_init(&c.sems[i], 0, 0);
  SC = &c; std::vector<pthread_t> th(tasks.size());
  for (size_t i = 0; i < tasks.size(); i++) { if (pthread_create(&th[i], 0, task_main, (void*)(long)i)) { perror("pthread_create"); _exit(70); } }
  c.countdown = next_gap(); int first = pick(false); c.cur = first; sem_post(&c.sems[first]);
  while (sem_wait(&c.mainsem) != 0) {}
  for (size_t i = 0; i < tasks.size(); i++) { pthread_join(th[i], 0); sem_destroy(&c.sems[i]); }
  sem_destroy(&c.mainsem); SC = 0;
  if (c.violated) throw c.viol;
  for (size_t i = 0; i < tasks.size(); i++) if (c.exc[i]) std::rethrow_exception(c.exc[i]);
  SchedStats st = {(uint64_t)c.switches, c.edges}; return st;
}
}
extern "C" {
void __sanitizer_cov_trace_pc() { sim::maybe_yield(); }
uint32_t sim_rng_word() {
  sim::maybe_yield();
  sim::WordStream* w = sim::cur_stream();
  if (!w) { fprintf(stderr, "random word drawn outside a stream\n"); abort(); }
  return w->word();
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!sim::SC || sim::tl_task < 0) return __real_pthread_mutex_lock(m);
  int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) sim::force_yield();
  return r;
}
int __wrap___cxa_guard_acquire(uint64_t* g) { int r = __real___cxa_guard_acquire(g); if (r) sim::g_noyield++; return r; }
void __wrap___cxa_guard_release(uint64_t* g) { __real___cxa_guard_release(g); sim::g_noyield--; }
void __wrap___cxa_guard_abort(uint64_t* g) { __real___cxa_guard_abort(g); sim::g_noyield--; }
}

// ------------------------------------------------------------------ runner
namespace sim {
struct Entry { Scenario f; int configs; };
static std::map<std::string, Entry>& registry() { static std::map<std::string, Entry> r; return r; }
Reg::Reg(const char* id, Scenario f, int configs) { registry()[id] = Entry{f, configs}; }

struct Result { bool bad; Violation v; };
static Result run_case(Sim& s, Scenario f) {
  Result r; r.bad = false; g_sim = &s;
  WordStream dflt(mix64(42)); set_stream(&dflt);
  try { f(s); }
  catch (Violation& v) { r.bad = true; r.v = v; }
  catch (std::bad_alloc& e) { r.bad = true; r.v = Violation{"escaped-bad_alloc", e.what()}; }
  catch (std::exception& e) { r.bad = true; r.v = Violation{"escaped-exception", e.what()}; }
  disarm_alloc(); g_alloc.in_sut = false; track_end(); set_stream(0); g_sim = 0; alloc_fill(-1);
  return r;
}
static uint64_t case_seed(uint64_t seed, const std::string& prop, int cfg, uint64_t idx) {
  uint64_t h = mix64(seed); for (char c : prop) h = mix64(h ^ (unsigned char)c); h = mix64(h ^ (uint64_t)cfg * 7919); return mix64(h ^ idx);
}
static std::string jesc(const std::string& x) { std::string o; for (char c : x) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }

struct File { std::string prop; int cfg; std::vector<uint64_t> ch; bool hist; uint64_t hseed, hfrom, hidx; File() : cfg(0), hist(false), hseed(0), hfrom(0), hidx(0) {} };
static bool load(const char* fn, File& o) {
  FILE* f = fopen(fn, "r"); if (!f) return false; char k[64]; o.cfg = 0;
  while (fscanf(f, "%63s", k) == 1) {
    if (k[0] == '#') { int c; while ((c = fgetc(f)) != EOF && c != '\n') {} }
    else if (!strcmp(k, "prop")) { char b[64]; if (fscanf(f, "%63s", b) != 1) break; o.prop = b; }
    else if (!strcmp(k, "config")) { if (fscanf(f, "%d", &o.cfg) != 1) break; }
    else if (!strcmp(k, "hist")) { unsigned long long a, b, c; if (fscanf(f, "%llu %llu %llu", &a, &b, &c) != 3) break; o.hist = true; o.hseed = a; o.hfrom = b; o.hidx = c; }
    else if (!strcmp(k, "choices")) { size_t n; if (fscanf(f, "%zu", &n) != 1) break; for (size_t i = 0; i < n; i++) { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) break; o.ch.push_back(v); } }
  }
  fclose(f); return !o.prop.empty();
}
static void save(const char* fn, const File& o, const std::vector<std::string>& trace, const Violation* v) {
  FILE* f = fopen(fn, "w"); if (!f) { perror(fn); _exit(70); }
  fprintf(f, "prop %s\nconfig %d\n", o.prop.c_str(), o.cfg);
  size_t n = o.ch.size(); while (n && o.ch[n - 1] == 0) n--;
  fprintf(f, "choices %zu", n); for (size_t i = 0; i < n; i++) fprintf(f, "%s%llu", i % 20 ? " " : "\n", (unsigned long long)o.ch[i]); fprintf(f, "\n");
  if (v) fprintf(f, "# violation class=%s : %s\n", v->cls.c_str(), jesc(v->msg).c_str());
  for (auto& t : trace) fprintf(f, "# %s\n", jesc(t).c_str());
  fclose(f);
}
struct Shared { volatile uint64_t hash; volatile int state; char cls[128]; char msg[1024]; };
static Shared* shm = 0;
// Runs one replay in a child; returns class ("" = held)
static std::string child_replay(const File& o, Scenario f, std::string* msg) {
  if (!shm) shm = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  shm->state = 0; shm->cls[0] = 0; shm->msg[0] = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
    alarm(20);
    Sim s; s.replay = true; s.choices = o.ch; s.config = o.cfg; Result r = run_case(s, f);
    shm->hash = s.hash;
    if (r.bad) { strncpy(shm->cls, r.v.cls.c_str(), 127); strncpy(shm->msg, r.v.msg.c_str(), 1023); }
    shm->state = r.bad ? 2 : 1; _exit(0);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (shm->state == 1) return "";
  if (shm->state == 2) { if (msg) *msg = shm->msg; return shm->cls; }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { if (msg) *msg = "no progress: step budget of the run exhausted"; return "hang"; }
  if (msg) *msg = "library code crashed (assertion, signal or sanitizer report)";
  return "crash";
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void shrink(File& o, Scenario f, const std::string& cls, double budget) {
  double t0 = now(); auto ok = [&](const File& c) { return child_replay(c, f, 0) == cls; };
  while (!o.ch.empty() && o.ch.back() == 0) o.ch.pop_back();
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t n = o.ch.size(), cut = n / 2; cut > 0 && now() - t0 < budget; cut /= 2) { File c = o; c.ch.resize(cut); if (ok(c)) { o = c; progress = true; n = cut; } }
    for (size_t bs = std::max<size_t>(1, o.ch.size() / 2); bs >= 1; bs /= 2) {
      for (size_t i = 0; i + bs <= o.ch.size() && now() - t0 < budget;) {
        File c = o; c.ch.erase(c.ch.begin() + i, c.ch.begin() + i + bs);
        if (ok(c)) { o = c; progress = true; continue; }
        bool nz = false; c = o; for (size_t k = i; k < i + bs; k++) { if (c.ch[k]) nz = true; c.ch[k] = 0; }
        if (nz && ok(c)) { o = c; progress = true; }
        i += bs;
      }
      if (now() - t0 > budget) break;
    }
    for (size_t i = 0; i < o.ch.size() && now() - t0 < budget; i++) {
      if (!o.ch[i]) continue;
      for (uint64_t v : {o.ch[i] / 2, o.ch[i] - 1}) { if (v >= o.ch[i]) continue; File c = o; c.ch[i] = v; if (ok(c)) { o = c; progress = true; break; } }
    }
  }
}
}
using namespace sim;
// Commands:
//  run PROP SEED CFG START COUNT BUDGET OUTPREFIX   -> OUTPREFIX.stat (json), OUTPREFIX.fail (choice file), OUTPREFIX.cur
//  replay FILE [v]                                  -> prints RESULT class hash
//  shrink FILE OUT BUDGET
//  make PROP SEED CFG IDX FILE                      -> choice file for a generated case
//  hashes PROP SEED CFG START COUNT                 -> prints idx hash per case (determinism check)
int main(int argc, char** argv) {
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) { if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); } }
  std::string cmd = argc > 1 ? argv[1] : "";
  std::ios::sync_with_stdio(true);
  // library chatter on cout/cerr is not part of any property
  static std::ostringstream sinkbuf; struct NB : std::streambuf { int overflow(int c) override { return c; } }; static NB nb;
  std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb);
  auto find = [&](const std::string& id) -> Entry { auto it = registry().find(id); if (it == registry().end()) { fprintf(stderr, "no scenario %s\n", id.c_str()); _exit(71); } return it->second; };
  if (cmd == "list") { for (auto& e : registry()) printf("%s %d\n", e.first.c_str(), e.second.configs); fflush(stdout); _exit(0); }
  if (cmd == "run" && argc >= 9) {
    std::string prop = argv[2]; Entry e = find(prop); uint64_t seed = strtoull(argv[3], 0, 10); int cfg = atoi(argv[4]);
    uint64_t start = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10); double budget = atof(argv[7]); std::string pre = argv[8];
    int cf = open((pre + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (ftruncate(cf, 16)) _exit(70);
    volatile uint64_t* cur = (uint64_t*)mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, cf, 0); cur[0] = start; cur[1] = 0;
    std::map<std::string, uint64_t> stats; uint64_t done = 0, events = 0, choices = 0; double simt = 0, t0 = now(); bool bad = false; Violation v; uint64_t badidx = 0;
    std::vector<uint64_t> shapes;
    for (uint64_t i = start; i < start + count; i++) {
      if (now() - t0 > budget) break;
      cur[0] = i; cur[1]++;
      alarm(60);
      Sim s; s.config = cfg; s.p = Prng(case_seed(seed, prop, cfg, i)); Result r = run_case(s, e.f);
      done++; events += s.events; simt += s.simtime; choices += s.choices.size(); for (auto& k : s.stats) stats[k.first] += k.second; shapes.push_back(s.shape);
      if (r.bad) { bad = true; v = r.v; badidx = i; File o; o.prop = prop; o.cfg = cfg; o.ch = s.choices; save((pre + ".fail").c_str(), o, s.trace, &v); break; }
    }
    FILE* f = fopen((pre + ".stat").c_str(), "w");
    fprintf(f, "{\"done\":%llu,\"events\":%llu,\"choices\":%llu,\"simtime\":%.6g,\"wall\":%.3f,\"bad\":%d,\"badidx\":%llu,\"cls\":\"%s\",\"msg\":\"%s\",\"stats\":{", (unsigned long long)done, (unsigned long long)events, (unsigned long long)choices, simt, now() - t0, bad, (unsigned long long)badidx, jesc(v.cls).c_str(), jesc(v.msg).c_str());
    bool first = true; for (auto& k : stats) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", k.first.c_str(), (unsigned long long)k.second); first = false; }
    fprintf(f, "},\"shapes\":["); for (size_t i = 0; i < shapes.size(); i++) fprintf(f, "%s\"%llx\"", i ? "," : "", (unsigned long long)shapes[i]); fprintf(f, "]}\n"); fclose(f);
    fflush(stdout); _exit(bad ? 10 : 0);
  }
  if (cmd == "make" && argc >= 7) {
    // Regenerates the choices of a case by running it (in a child, as it may crash): choices go to a shared buffer.
    std::string prop = argv[2]; Entry e = find(prop); int cfg = atoi(argv[4]);
    const size_t cap = 1 << 22; uint64_t* buf = (uint64_t*)mmap(0, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(stdout); pid_t pid = fork();
    if (pid == 0) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); alarm(60);
      Sim s; s.config = cfg; s.p = Prng(case_seed(strtoull(argv[3], 0, 10), prop, cfg, strtoull(argv[5], 0, 10)));
      g_mirror = buf; run_case(s, e.f); _exit(0); }
    int st; waitpid(pid, &st, 0);
    File o; o.prop = prop; o.cfg = cfg; o.ch.assign(buf + 1, buf + 1 + buf[0]); save(argv[6], o, {}, 0); fflush(stdout); _exit(0);
  }
  if (cmd == "hashes" && argc >= 7) {
    std::string prop = argv[2]; Entry e = find(prop); uint64_t start = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10); int cfg = atoi(argv[4]);
    for (uint64_t i = start; i < start + count; i++) { alarm(60); Sim s; s.config = cfg; s.p = Prng(case_seed(strtoull(argv[3], 0, 10), prop, cfg, i)); Result r = run_case(s, e.f); printf("%llu %016llx %d\n", (unsigned long long)i, (unsigned long long)s.hash, (int)r.bad); }
    fflush(stdout); _exit(0);
  }
  if (cmd == "replay" && argc >= 3) {
    File o; if (!load(argv[2], o)) { fprintf(stderr, "cannot read %s\n", argv[2]); _exit(72); }
    Entry e = find(o.prop); bool vb = argc > 3; alarm(60);
    if (vb) { printf("STREAM\n"); }
    Sim s; Result r;
    if (o.hist) { // a failure that needs the earlier runs of the same process: replay the run sequence
      for (uint64_t i = o.hfrom; i < o.hidx; i++) { alarm(60); Sim q; q.config = o.cfg; q.p = Prng(case_seed(o.hseed, o.prop, o.cfg, i)); run_case(q, e.f); }
      s.p = Prng(case_seed(o.hseed, o.prop, o.cfg, o.hidx)); s.config = o.cfg; s.verbose = vb; alarm(60); r = run_case(s, e.f);
    } else { s.replay = true; s.choices = o.ch; s.config = o.cfg; s.verbose = vb; r = run_case(s, e.f); }
    if (vb) for (auto& t : s.trace) printf("%s\n", t.c_str());
    printf("RESULT %s %016llx events=%llu\n", r.bad ? r.v.cls.c_str() : "held", (unsigned long long)s.hash, (unsigned long long)s.events);
    if (r.bad) printf("MESSAGE %s\n", r.v.msg.c_str());
    fflush(stdout); _exit(r.bad ? 10 : 0);
  }
  if (cmd == "shrink" && argc >= 5) {
    File o; if (!load(argv[2], o)) _exit(72); Entry e = find(o.prop); std::string msg; std::string cls = child_replay(o, e.f, &msg);
    if (cls.empty()) { printf("NOREPRO\n"); fflush(stdout); _exit(3); }
    shrink(o, e.f, cls, atof(argv[4])); child_replay(o, e.f, &msg);
    // trace of the minimised run
    std::vector<std::string> tr;
    if (cls != "crash" && cls != "hang") { Sim s; s.replay = true; s.choices = o.ch; s.config = o.cfg; s.verbose = true; run_case(s, e.f); tr = s.trace; }
    else { int pfd[2]; if (pipe(pfd)) _exit(70); fflush(stdout); pid_t pid = fork(); if (pid == 0) { g_tracefd = pfd[1]; int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); alarm(20); Sim s; s.replay = true; s.choices = o.ch; s.config = o.cfg; s.verbose = true; run_case(s, e.f); _exit(0); }
      close(pfd[1]); std::string all; char b[4096]; ssize_t k; while ((k = read(pfd[0], b, sizeof b)) > 0) all.append(b, k); int st; waitpid(pid, &st, 0); std::istringstream is(all); std::string l; while (std::getline(is, l)) tr.push_back(l); }
    Violation v{cls, msg}; save(argv[3], o, tr, &v); printf("SHRUNK %s %zu\nMESSAGE %s\n", cls.c_str(), o.ch.size(), jesc(msg).c_str()); fflush(stdout); _exit(0);
  }
  fprintf(stderr, "usage\n"); return 73;
}
