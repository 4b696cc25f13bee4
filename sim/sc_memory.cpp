// C12: failed allocations at every point of every library call.
#include "jobs.h"
#include <new>
using namespace W; using namespace sim;
namespace {
// one operation of a job's life: 0 build, 1 step, 2 rebelief
struct Op { int what, arg; };
const char* opname(const Op& o) { return o.what == 0 ? "build" : o.what == 1 ? "step" : "rebelief"; }
void apply(Job& j, const Op& o, Out& out) { if (o.what == 0) { j.build(o.arg); j.observe(out); } else if (o.what == 1) j.step(o.arg, out); else { j.rebelief(o.arg); j.observe(out); } }
}
SCENARIO(C12, 2) {
#ifdef __MATRIXWRAPPER_EIGEN__
  g_fail_malloc = false;   // Eigen 3.4's DenseStorage::resize frees before it allocates: out of memory inside Eigen's own storage is third-party territory
#endif
  int kind = s.draw(NJOBS); uint64_t seed = s.seed64(); int n = s.range(0, 5); std::vector<Op> ops; ops.push_back(Op{0, 0}); for (int i = 0; i < n; i++) ops.push_back(s.chance(150) ? Op{2, s.range(1, 3)} : Op{1, i}); size_t target = s.draw(ops.size());
  if (s.config == 0) target = ops.size();      // fault-free: leak accounting and repeatability only
  std::vector<Out> want(ops.size()); long count = 0; std::string nm;
  { std::unique_ptr<Job> j(mkjob(kind, seed)); nm = j->name; for (size_t i = 0; i < ops.size(); i++) { if (i == target) arm_alloc(1L << 60); apply(*j, ops[i], want[i]); if (i == target) { count = g_alloc.count; disarm_alloc(); } } j->drop(); }
  uint64_t bseed = s.seed64(); int bkind = s.draw(NJOBS); std::unique_ptr<Job> by(mkjob(bkind, bseed)); Out b0, b1, bn, br; by->build(0); { std::unique_ptr<Job> r(mkjob(bkind, bseed)); r->build(0); r->step(0, br); r->observe(b0); r->drop(); } Out bo; by->observe(bo);
  s.ev(nm.c_str(), "%zu operations, fault in %zu (%s, %ld allocations)", ops.size(), target, target < ops.size() ? opname(ops[target]) : "-", count);
  if (target < ops.size() && count == 0) { s.ev("no-allocation"); target = ops.size(); }
  int after = s.draw(4); bool forever = s.chance(400); long k = count ? 1 + (long)s.draw((uint64_t)count) : 0; uint64_t re = s.seed64();
  // the fresh object an object given a new belief must equal
  std::vector<Out> fresh(4); { std::unique_ptr<Job> j(mkjob(kind, seed)); j->restream(re); j->build(1); j->observe(fresh[0]); for (int i = 0; i < 3; i++) j->step(20 + i, fresh[1 + i]); j->drop(); }
  track_begin(); struct E { ~E() { disarm_alloc(); track_end(); } } e;
  { std::unique_ptr<Job> j(mkjob(kind, seed)); bool failed = false, built = false;
    for (size_t i = 0; i < ops.size(); i++) { Out got; if (i == target) arm_alloc(k, forever); bool thrown = false;
      try { apply(*j, ops[i], got); } catch (const std::bad_alloc&) { thrown = true; } catch (const std::exception& x) { disarm_alloc(); s.fail("wrong-exception", "%s, %s with allocation %ld of %ld failing: exception '%s' instead of out of memory", nm.c_str(), opname(ops[i]), k, count, x.what()); }
      bool fired = i == target ? g_alloc.fired : false;
      if (i == target && forever && after == 0) { /* keep failing while it is destroyed */ } else disarm_alloc();
      if (thrown && !fired) s.fail("spurious-oom", "%s, %s: out-of-memory exception without a failed allocation", nm.c_str(), opname(ops[i]));
      if (fired) { s.fault(forever ? "allocation_fails_until_handled" : "allocation_fails_once"); char kb[64]; snprintf(kb, sizeof kb, "%s:%s@%ld%s", thrown ? "oom" : "oom-absorbed", opname(ops[i]), k, forever ? "+" : ""); s.ev(kb); }
      if (thrown) { failed = true; built = built || ops[i].what != 0; break; }
      s.ev(opname(ops[i])); built = true; if (!same(got, want[i])) { size_t d = firstdiff(got, want[i]); s.fail("wrong-result", "%s, %s %zu%s: result value %zu is %.17g, expected %.17g", nm.c_str(), opname(ops[i]), i, fired ? " (an allocation failed and was not reported)" : "", d, d < got.v.size() ? got.v[d] : NAN, d < want[i].v.size() ? want[i].v[d] : NAN); } }
    if (failed || s.draw(2)) {
      if (after == 0) { s.ev("destroy"); j->drop(); }
      else { if (after == 3 && failed) { arm_alloc(1 + s.draw(30), s.draw(2)); try { if (built) j->rebelief(2); else j->build(2); } catch (const std::bad_alloc&) { s.ev("second-oom"); } if (disarm_alloc()) s.fault("allocation_fails_again"); }
        j->restream(re); Out o; try { if (built) j->rebelief(1); else j->build(1); } catch (const std::exception& x) { s.fail("not-recoverable", "%s: giving it a new belief after the failed allocation throws '%s'", nm.c_str(), x.what()); } s.ev("new-belief"); j->observe(o);
        if (built) { j->restream(re); std::unique_ptr<Job> f(mkjob(kind, seed)); f->restream(re); f->build(1); f->restream(re); for (int i = 0; i < 3; i++) { fresh[1 + i].v.clear(); f->step(20 + i, fresh[1 + i]); } f->drop(); }
        if (!alike(o, fresh[0])) { size_t d = farthest(o, fresh[0]); s.fail("not-like-fresh", "%s: after a failed %s and a new belief, value %zu of its state is %.17g, a fresh object has %.17g", nm.c_str(), target < ops.size() ? opname(ops[target]) : "-", d, d < o.v.size() ? o.v[d] : NAN, d < fresh[0].v.size() ? fresh[0].v[d] : NAN); }
        for (int i = 0; i < 3; i++) { Out g; j->step(20 + i, g); if (!alike(g, fresh[1 + i])) { size_t d = farthest(g, fresh[1 + i]); s.fail("not-like-fresh", "%s: after a failed %s (allocation %ld of %ld) and a new belief, step %d: value %zu is %.17g, a fresh object gives %.17g", nm.c_str(), target < ops.size() ? opname(ops[target]) : "-", k, count, i, d, d < g.v.size() ? g.v[d] : NAN, d < fresh[1 + i].v.size() ? fresh[1 + i].v[d] : NAN); } for (double v : g.v) s.h(v); } j->drop(); } }
    else j->drop();
    disarm_alloc(); }
  long live = track_live(); if (live != 0) s.fail("leak", "%s: %ld library allocations still live after a failed %s (allocation %ld of %ld) once everything is destroyed", nm.c_str(), live, target < ops.size() ? opname(ops[target]) : "-", k, count);
  by->observe(b1); if (!same(b1, bo)) s.fail("bystander-changed", "%s changed while %s ran out of memory", by->name, nm.c_str()); by->step(0, bn); if (!same(bn, br)) s.fail("bystander-changed", "%s gives different results after %s ran out of memory", by->name, nm.c_str()); by->drop(); s.probe("leak_free");
}
