// Discrete-event delivery: messages produced at simulated times reach the filter node through
// a faulty link (loss, duplication, delay, reordering, corruption to outliers).
#ifndef WORLD_H
#define WORLD_H
#include "simcore.h"
#include <queue>
namespace W {
struct Msg { double at; uint64_t seq; int kind; int id; int ref; };
struct Later { bool operator()(const Msg& a, const Msg& b) const { return a.at != b.at ? a.at > b.at : a.seq > b.seq; } };
struct Link {
  sim::Sim& s; std::priority_queue<Msg, std::vector<Msg>, Later> q; uint64_t seq; unsigned ploss, pdup, pdelay; double maxdelay;
  explicit Link(sim::Sim& s_) : s(s_), seq(0), ploss(0), pdup(0), pdelay(0), maxdelay(0) {
    if (s.config >= 1) { // swarm: each fault kind enabled per run
      if (s.draw(2)) ploss = 50 + s.draw(350); if (s.draw(2)) pdup = 50 + s.draw(250); if (s.draw(2)) { pdelay = 100 + s.draw(500); maxdelay = 1 + s.draw(5); } }
  }
  void send(double t, int kind, int id, int refi) {
    if (ploss && s.chance(ploss)) { s.fault("loss"); return; }
    double d = 0.01; if (pdelay && s.chance(pdelay)) { d += s.real(0, maxdelay); s.fault("delay"); }
    q.push(Msg{t + d, seq++, kind, id, refi});
    if (pdup && s.chance(pdup)) { s.fault("duplicate"); q.push(Msg{t + d + s.real(0, 1.5), seq++, kind, id, refi}); }
  }
  bool next(Msg& m) { if (q.empty()) return false; m = q.top(); q.pop(); if (m.at > s.simtime) s.simtime = m.at; return true; }
};
}
#endif
