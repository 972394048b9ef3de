// Shared by the scheduler and the OpenMP runtime.
#ifndef SIM_MT_INTERNAL_HPP
#define SIM_MT_INTERNAL_HPP
#include <cstdint>
namespace mt {
const int MAXT = 16;
struct Team;
struct Thr {
  int id;
  bool started, busy, runnable;
  int go;                       // futex
  uint64_t points;
  uint64_t prio;
  const void* wait;             // what it is blocked on
  void (*fn)(void*);
  void* data;
  Team* team;
  Team* job_team;               // whose job it runs
  int team_id;
  uint64_t ws;                  // work shares met in this team
  int scope;                    // of the thread that started it
  uint32_t spins;
  uint32_t depth;
  const void* stack[512];
};
struct WorkShare {
  bool open;
  bool ull, up;
  uint64_t next, end, chunk;
  int64_t incr;
  uint64_t left;                // iterations
  int single_taken;
  void* copy;
};
struct Team {
  Thr* master;
  Team* outer;
  bool callers;                 // independent threads, no OpenMP team
  int n, left, arrived;
  uint64_t generation;
  Thr* members[MAXT];
  WorkShare ws[32];
  uint64_t ws_made;
};
extern Thr g_thr[MAXT];
Thr* me();
void decide(bool forced);       // a scheduling point
void block(const void* on);     // until unblock(on)
void unblock(const void* on);
void acquire_edge(const void* key);
void release_edge(const void* key);
void edge(Thr* from, Thr* to);  // everything before in `from` happens before
int fork_team(Team& t, int n, void (*fn)(void*), void* data, bool callers = false, const WorkShare* first = nullptr);
void join_team(Team& t);
void lock(const void* key, bool recursive = false);
bool trylock(const void* key);
void unlock(const void* key);
bool multi();
}  // namespace mt
#endif
