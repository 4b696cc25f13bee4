// C13: who owns what, over any lifetime history. C17: a run is a function of its inputs and words.
#include "jobs.h"
#include "../sim/simcore.h"
using namespace W; using namespace sim;
namespace {
struct Op { int what, arg; };   // 0 step, 1 new belief, 2 caller overwrites prior, 3 caller destroys prior, 4 caller re-creates models, 5 own belief handed back
void cmp(Sim& s, const char* cls, const char* nm, const char* what, const Out& got, const Out& want) { if (alike(got, want)) return; size_t d = farthest(got, want); s.fail(cls, "%s: %s: value %zu is %.17g, expected %.17g", nm, what, d, d < got.v.size() ? got.v[d] : NAN, d < want.v.size() ? want.v[d] : NAN); }
// replays the part of a history that may matter
void plain(Job& j, const std::vector<Op>& ops, std::vector<Out>* outs) { j.build(0); for (size_t i = 0; i < ops.size(); i++) { Out o; if (ops[i].what == 0) j.step(ops[i].arg, o); else if (ops[i].what == 1) { j.rebelief(ops[i].arg); j.observe(o); } else if (ops[i].what == 5) { j.selfreset(); } if (outs) (*outs)[i] = o; } }
void argcheck(Sim& s, Job& j) { if (j.argmod) s.fail("argument-changed", "%s: an argument of a call was modified by it", j.name); s.probe("arguments_checked"); }
void watched_step(Sim& s, Job& j, int i, Out& o) { Out b, a; j.watch = true; j.pre.v.clear(); j.callers(b); j.step(i, o); j.callers(a); cmp(s, "caller-object-changed", j.name, "an object the caller supplied was modified by the call", a, j.pre.v.empty() ? b : j.pre); argcheck(s, j); }
}
SCENARIO(C13, 2) {
  int kind = s.draw(NJOBS); uint64_t seed = s.seed64(); int n = s.range(0, 7); bool life = s.config >= 1; std::vector<Op> ops; bool gone = false;
  for (int i = 0; i < n; i++) { int k = life ? s.draw(12) : s.draw(7); Op o = {0, i}; if (k == 6) { o = Op{1, s.range(1, 4)}; gone = false; } else if (k == 7 && !gone) o = Op{2, 0}; else if (k == 8 && !gone) { o = Op{3, 0}; gone = true; } else if (k == 9) o = Op{4, 0}; else if (k == 10) o = Op{5, 0}; ops.push_back(o); }
  std::vector<Out> want(ops.size()); std::string nm; { std::unique_ptr<Job> j(mkjob(kind, seed)); nm = j->name; plain(*j, ops, &want); j->drop(); }
  const char* names[6] = {"step", "reset", "prior-overwritten", "prior-destroyed", "models-recreated", "reset-to-own-belief"};
  s.ev(nm.c_str()); int fk = s.draw(4), fa = s.draw(4), order = s.draw(4); uint64_t re = s.seed64();
  std::vector<Out> fresh(4); { std::unique_ptr<Job> j(mkjob(kind, seed)); j->build(3); j->observe(fresh[0]); j->restream(re); for (int i = 0; i < 3; i++) j->step(30 + i, fresh[1 + i]); j->drop(); }
  track_begin(); struct E { ~E() { track_end(); } } e;
  { std::unique_ptr<Job> j(mkjob(kind, seed)), f; j->watch = true; j->build(0); argcheck(s, *j);
    for (size_t i = 0; i < ops.size(); i++) { s.ev(names[ops[i].what]); Out o; switch (ops[i].what) {
      case 0: watched_step(s, *j, ops[i].arg, o); cmp(s, "belief-disturbed", nm.c_str(), "result of a step depends on what the caller did to its own objects", o, want[i]); break;
      case 1: { j->watch = true; j->rebelief(ops[i].arg); argcheck(s, *j); j->observe(o); cmp(s, "belief-disturbed", nm.c_str(), "state after a reset", o, want[i]); break; }
      case 2: { Out b, a; j->observe(b); if (j->mangle()) s.fault("caller_overwrites_prior"); j->observe(a); cmp(s, "belief-shared", nm.c_str(), "overwriting the prior changed the belief", a, b); break; }
      case 3: { if (j->freeprior()) s.fault("caller_destroys_prior"); break; }
      case 4: { if (j->remodel()) s.fault("caller_recreates_models"); break; }
      default: { Out b, a; j->belief(b); j->selfreset(); j->belief(a); cmp(s, "self-reset", nm.c_str(), "handing an object its own belief changed it", a, b); } } for (double v : o.v) s.h(v); }
    // a clone, copy or assignment, and both continue
    if (fk < 3) { f.reset(j->fork(fk)); if (f) { s.ev(fk == 0 ? "clone" : fk == 1 ? "copy" : "assign"); std::unique_ptr<Job> ra(mkjob(kind, seed)), rb(mkjob(kind, seed)); plain(*ra, ops, 0); plain(*rb, ops, 0); Out fo, jo; f->observe(fo); j->observe(jo); cmp(s, "copy-differs", nm.c_str(), "a copy differs from its original", fo, jo);
        for (int i = 0; i < 3; i++) { Out a, b, wa, wb; ra->step(10 + i, wa); rb->step(20 + i, wb); if (fa & 1) { f->step(20 + i, b); watched_step(s, *j, 10 + i, a); } else { watched_step(s, *j, 10 + i, a); f->step(20 + i, b); } cmp(s, "copy-shared", nm.c_str(), "the original changed with its copy", a, wa); cmp(s, "copy-shared", nm.c_str(), "the copy changed with its original", b, wb); if (i == 1 && fa == 2) { j->drop(); s.ev("original-destroyed"); Out b2, w2; f->step(40, b2); rb->step(22, w2); w2.v.clear(); break; } if (i == 1 && fa == 3) { f->drop(); s.ev("copy-destroyed"); Out a2, w2; watched_step(s, *j, 12, a2); ra->step(12, w2); cmp(s, "copy-shared", nm.c_str(), "destroying the copy changed the original", a2, w2); break; } } ra->drop(); rb->drop(); s.probe("forked"); } }
    bool alive = !(f && fa == 2);
    if (alive && s.draw(2)) { s.ev("reset-like-new"); j->rebelief(3); Out o; j->observe(o); cmp(s, "reset-not-like-new", nm.c_str(), "state after a reset differs from a new object on that belief", o, fresh[0]); j->restream(re); for (int i = 0; i < 3; i++) { Out g; watched_step(s, *j, 30 + i, g); cmp(s, "reset-not-like-new", nm.c_str(), "results after a reset differ from those of a new object on that belief", g, fresh[1 + i]); } s.probe("reset_like_new"); }
    if (order == 0) { j->drop(); if (f) f->drop(); s.ev("filter-first"); } else if (order == 1) { j->freecallers(); j->drop(); if (f) { f->freecallers(); f->drop(); } s.ev("callers-first"); s.fault("callers_destroyed_first"); } else if (order == 2) { if (f) f->drop(); j->freeprior(); j->drop(); s.ev("prior-first"); } else s.ev("implicit"); }
  long live = track_live(); if (live != 0) s.fail("leak", "%s: %ld library allocations still live once everything is destroyed", nm.c_str(), live); s.probe("leak_free");
}
