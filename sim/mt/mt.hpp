// Threads of the simulation: one runs at a time, a seeded scheduler decides
// which, and a vector-clock detector watches every memory access.
#ifndef SIM_MT_HPP
#define SIM_MT_HPP
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace mt {
enum Strategy { ST_WALK = 0, ST_PCT, ST_QUANTUM, ST_SERIAL, ST_COUNT };
struct Config {
  uint64_t seed = 1;
  int strategy = ST_WALK;
  double p = 0.01;            // ST_WALK: chance of a preemption per access
  uint64_t quantum = 100;     // ST_QUANTUM
  int depth = 3;              // ST_PCT: priority changes
  uint64_t horizon = 20000;   //          within so many accesses
  std::string sched;          // explicit schedule instead
  bool replay = false;
};
void begin(const Config& c);
void set_team_limit(int n);   // most threads a parallel region gets
int team_limit();
void run(const std::vector<std::function<void()>>& f);  // concurrent callers
struct Stats { uint64_t switches, preemptions, points, regions, races_checked, sched_hash, threads; };
Stats stats();
std::string schedule();       // tokens tid:point:next joined by '.'
}  // namespace mt
#endif
