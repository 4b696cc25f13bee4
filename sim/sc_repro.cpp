// C17: a run is a function of its inputs and the words it consumed: the same history in two different worlds.
#include "jobs.h"
using namespace W; using namespace sim;
namespace {
struct World_ { int fill, stack; uint64_t env; int warm; bool neigh, heap; std::vector<int> wk; std::vector<uint64_t> ws; };
void run(int kind, uint64_t seed, int n, int fork_, const World_& w, std::vector<Out>& outs, std::vector<uint64_t>& cons, std::string& nm, std::vector<char>& noisy) {
  struct Fill { Fill(int f, uint64_t e) { alloc_fill(f); g_envseed = e; g_envcalls = 0; } ~Fill() { alloc_fill(-1); g_envseed = 0; } } fl(w.fill, w.env);
  std::vector<void*> hp; if (w.heap) { Prng q(w.ws[0]); for (int i = 0; i < 400; i++) { size_t z = 8u << (q.next() % 7); hp.push_back(malloc(z)); } for (size_t i = 0; i < hp.size(); i++) if (q.next() & 1) { free(hp[i]); hp[i] = 0; } }
  for (int i = 0; i < w.warm; i++) { std::unique_ptr<Job> j(mkjob(w.wk[i], w.ws[i])); j->build(i); for (int k = 0; k < 3; k++) { Out o; j->step(k, o); } j->drop(); }
  std::unique_ptr<Job> nb; if (w.neigh) { nb.reset(mkjob(w.wk[0], w.ws[1])); nb->build(1); }
  std::unique_ptr<Job> j(mkjob(kind, seed)), f; nm = j->name; outs.clear(); cons.clear(); noisy.clear(); scribble_stack(w.stack); j->build(0); { outs.push_back(Out()); j->observe(outs.back()); cons.push_back(j->words.consumed); noisy.push_back(0); }
  for (int i = 0; i < n; i++) { if (nb) { Out o; nb->step(i, o); } uint64_t c0 = j->words.consumed; scribble_stack(w.stack); outs.push_back(Out()); if (i == n / 2 && fork_ == 3) j->rebelief(2); else j->step(i, outs.back()); cons.push_back(j->words.consumed); noisy.push_back(j->quiet(i) && j->words.consumed != c0);
    if (i == n / 2 && fork_ < 3) { f.reset(j->fork(fork_)); if (f) { scribble_stack(w.stack); outs.push_back(Out()); f->step(90 + i, outs.back()); cons.push_back(f->words.consumed); noisy.push_back(0); } } }
  { outs.push_back(Out()); j->observe(outs.back()); cons.push_back(j->words.consumed); noisy.push_back(0); } if (f) f->drop(); j->drop(); if (nb) nb->drop(); for (void* p : hp) free(p);
}
}
SCENARIO(C17, 2) {
  int kind = s.draw(NJOBS), n = s.range(1, 7), fk = s.draw(6); uint64_t seed = s.seed64(); World_ a = {0, 0, 0, 0, false, false, {}, {}}, b = a; static const int fills[5] = {0xff, 0x5a, 0x7f, 0x01, 0xc3}, stacks[5] = {0xff, 0x3f, 0x7f, 0x01, 0xc0};
  for (int i = 0; i < 4; i++) { b.wk.push_back(s.draw(NJOBS)); b.ws.push_back(s.seed64()); }
  if (s.config == 0) { b.fill = fills[s.draw(5)]; b.stack = stacks[s.draw(5)]; s.ev("memory"); s.fault("memory_contents"); }
  else { if (s.draw(2)) { b.fill = fills[s.draw(5)]; b.stack = stacks[s.draw(5)]; s.ev("memory"); s.fault("memory_contents"); } if (s.draw(2)) { b.env = s.seed64() | 1; s.ev("time-and-environment"); s.fault("clock_and_environment"); } if (s.draw(2)) { b.warm = s.range(1, 4); for (int i = 0; i < b.warm; i++) s.ev(("earlier-activity" + std::to_string(b.wk[i])).c_str()); s.fault("earlier_activity"); } if (s.draw(2)) { b.neigh = true; s.ev(("neighbour" + std::to_string(b.wk[0])).c_str()); s.fault("other_live_objects"); } if (s.draw(2)) { b.heap = true; s.ev("heap-layout"); s.fault("heap_layout"); } }
  std::vector<Out> oa, ob; std::vector<uint64_t> ca, cb; std::vector<char> na, nb; std::string nm; bool first = s.draw(2);
  if (first) { run(kind, seed, n, fk, a, oa, ca, nm, na); run(kind, seed, n, fk, b, ob, cb, nm, nb); } else { run(kind, seed, n, fk, b, ob, cb, nm, nb); run(kind, seed, n, fk, a, oa, ca, nm, na); }
  s.ev(nm.c_str());
  if (oa.size() != ob.size()) s.fail("irreproducible", "%s: %zu and %zu results", nm.c_str(), oa.size(), ob.size());
  for (size_t i = 0; i < oa.size(); i++) { for (double v : oa[i].v) s.h(v); if (!same(oa[i], ob[i])) { size_t d = firstdiff(oa[i], ob[i]); s.fail("irreproducible", "%s: operation %zu, value %zu is %.17g in one environment and %.17g in the other, same inputs and random words", nm.c_str(), i, d, d < oa[i].v.size() ? oa[i].v[d] : NAN, d < ob[i].v.size() ? ob[i].v[d] : NAN); } if (ca[i] != cb[i]) s.fail("irreproducible-words", "%s: operation %zu consumed up to %llu random words in one environment and %llu in the other", nm.c_str(), i, (unsigned long long)ca[i], (unsigned long long)cb[i]); if (na[i]) s.fail("needless-randomness", "%s: operation %zu needs no randomness but consumed random words", nm.c_str(), i); s.ev("compared"); }
}
