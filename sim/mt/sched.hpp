// Draws a scheduler for one run.
#ifndef SIM_SCHED_HPP
#define SIM_SCHED_HPP
#include "common/ctx.hpp"
#include "mt/mt.hpp"
namespace sim {
inline void start_scheduler(Ctx& c, Rng r, uint64_t horizon = 30000) {
  mt::Config g;
  g.seed = r.u64();
  const double t = r.uni(0, 1);
  g.strategy = t < 0.5 ? mt::ST_WALK : t < 0.75 ? mt::ST_PCT : t < 0.95 ? mt::ST_QUANTUM : mt::ST_SERIAL;
  g.p = std::pow(10., r.uni(-4, -0.5));
  g.quantum = (uint64_t)std::pow(10., r.uni(0.3, 3.5));
  g.depth = r.range(1, 6);
  g.horizon = (uint64_t)std::pow(10., r.uni(2.5, std::log10((double)horizon)));
  g.sched = c.opt.sched;
  g.replay = !g.sched.empty();
  mt::begin(g);
  c.count(strf("sched.%s", g.strategy == mt::ST_WALK ? "random_walk" : g.strategy == mt::ST_PCT ? "pct" : g.strategy == mt::ST_QUANTUM ? "quantum" : "serial").c_str());
}
inline void end_scheduler(Ctx& c) {
  const mt::Stats s = mt::stats();
  c.mark(s.sched_hash);
  c.log(s.sched_hash);
  c.count("sched.switches", s.switches);
  c.count("sched.preemptions", s.preemptions);
  c.count("sched.points", s.points);
  c.count("sched.regions", s.regions);
}
}  // namespace sim
#endif
