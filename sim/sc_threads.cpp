// C11: independent objects under every interleaving; C17: a run is a function of its inputs and words.
#include "jobs.h"
using namespace W; using namespace sim;
namespace {
Out solo(int kind, uint64_t seed, int steps) { std::unique_ptr<Job> j(mkjob(kind, seed)); Out o; j->build(0); j->observe(o); for (int i = 0; i < steps; i++) j->step(i, o); if (steps > 2) { j->rebelief(1); j->step(0, o); j->step(1, o); } j->drop(); return o; }
}
SCENARIO(C11, 2) {
  int n = s.range(2, 4); struct T { int kind; uint64_t seed; int steps; Out ref, got; const char* name; }; std::vector<T> t(n);
  bool samekind = s.draw(2); int k0 = s.draw(NJOBS);
  for (auto& x : t) { x.kind = samekind ? k0 : (int)s.draw(NJOBS); x.seed = s.seed64(); x.steps = s.range(1, 6); std::unique_ptr<Job> j(mkjob(x.kind, x.seed)); x.name = j->name; x.ref = solo(x.kind, x.seed, x.steps); Out again = solo(x.kind, x.seed, x.steps); if (!same(again, x.ref)) s.fail("not-repeatable", "%s: two solo runs of the same history differ at value %zu", x.name, firstdiff(again, x.ref)); }
  int mode = s.draw(3);
  if (mode == 2) { // re-entrant: one history runs inside the model callbacks of another
    std::string names = std::string(t[0].name) + " inside " + t[1].name; s.ev("reentrant", "%s", names.c_str()); std::unique_ptr<Job> in(mkjob(t[0].kind, t[0].seed)); in->build(0); in->observe(t[0].got); int i = 0, every = s.range(1, 12), c = 0; bool nested = false;
    std::function<void()> cb = [&]() { if (++c % every || i >= t[0].steps) return; nested = true; in->step(i++, t[0].got); };
    { std::unique_ptr<Job> j(mkjob(t[1].kind, t[1].seed)); Out& o = t[1].got; model_cb_slot() = &cb; struct R { ~R() { model_cb_slot() = 0; } } r; j->build(0); j->observe(o); for (int k = 0; k < t[1].steps; k++) j->step(k, o); if (t[1].steps > 2) { j->rebelief(1); j->step(0, o); j->step(1, o); } j->drop(); }
    while (i < t[0].steps) in->step(i++, t[0].got); if (t[0].steps > 2) { in->rebelief(1); in->step(0, t[0].got); in->step(1, t[0].got); } in->drop(); n = 2; if (nested) { s.fault("reentrant_call"); s.ev("nested"); }
  } else {
    std::vector<TaskSpec> tasks; std::vector<WordStream> ws(n); for (int i = 0; i < n; i++) { TaskSpec q; T* x = &t[i]; ws[i] = WordStream(i + 1); q.words = &ws[i]; q.fn = [x]() { x->got = solo(x->kind, x->seed, x->steps); }; tasks.push_back(q); }
    int gap = s.draw(4), mx = s.config >= 1 ? 20 + s.draw(400) : s.range(1, 12); SchedStats st = run_interleaved(s, tasks, mx, gap); for (uint64_t k = 0; k < st.switches; k++) s.fault("preemption"); if (st.switches) s.probe("interleaved");
  }
  for (int i = 0; i < n; i++) { for (double v : t[i].got.v) s.h(v); s.ev(t[i].name); if (!same(t[i].got, t[i].ref)) { size_t d = firstdiff(t[i].got, t[i].ref); s.fail("interference", "%s (task %d): value %zu of its results is %.17g, alone it is %.17g", t[i].name, i, d, d < t[i].got.v.size() ? t[i].got.v[d] : NAN, d < t[i].ref.v.size() ? t[i].ref.v[d] : NAN); } }
}
