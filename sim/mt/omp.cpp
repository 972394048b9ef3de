// The OpenMP runtime of the simulation (what libgomp is for real programs).
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "common/rt.hpp"
#include "mt/internal.hpp"
#include "mt/mt.hpp"
using namespace mt;
static int g_default = 4;
namespace {
bool nested(Thr* s) {
  for (Team* t = s->team; t; t = t->outer)
    if (t->n > 1 && !t->callers) return true;
  return false;
}
WorkShare& share(Thr* s, bool& first) {
  Team* t = s->team;
  uint64_t i = s->ws++;
  WorkShare& w = t->ws[i % 32];
  first = i >= t->ws_made;
  if (first) {
    t->ws_made = i + 1;
    memset(&w, 0, sizeof w);
  }
  return w;
}
WorkShare& current(Thr* s) { return s->team->ws[(s->ws - 1) % 32]; }
Team g_solo[MAXT];
Team* team_of(Thr* s) {
  if (!s->team || s->team->callers) {
    Team& t = g_solo[s->id];
    t.outer = s->team;
    t.n = 1;
    t.master = s;
    t.members[0] = s;
    s->team = &t;
  }
  return s->team;
}
void barrier(Thr* s) {
  Team* t = s->team;
  if (!t || t->n == 1) return;
  release_edge(&t->arrived);
  if (++t->arrived == t->n) {
    t->arrived = 0;
    t->generation++;
    unblock(&t->arrived);
  } else {
    uint64_t g = t->generation;
    while (t->generation == g) block(&t->arrived);
  }
  acquire_edge(&t->arrived);
}
bool take(WorkShare& w, uint64_t& a, uint64_t& b) {
  if (multi()) decide(false);
  if (!w.left) return false;
  uint64_t n = w.chunk < 1 ? 1 : w.chunk;
  if (n > w.left) n = w.left;
  a = w.next;
  b = w.next + n * (uint64_t)w.incr;
  w.next = b;
  w.left -= n;
  return true;
}
bool start(uint64_t s0, uint64_t e, int64_t inc, uint64_t count, uint64_t chunk, uint64_t& a, uint64_t& b) {
  Thr* s = me();
  team_of(s);
  bool first;
  WorkShare& w = share(s, first);
  if (first) { w.next = s0; w.end = e; w.incr = inc; w.left = count; w.chunk = chunk; }
  return take(w, a, b);
}
uint64_t count_l(long s, long e, long i) {
  if (i > 0) return e > s ? (uint64_t)((e - s + i - 1) / i) : 0;
  return e < s ? (uint64_t)((s - e - i - 1) / -i) : 0;
}
uint64_t count_u(bool up, uint64_t s, uint64_t e, uint64_t i) {
  if (up) return e > s ? (e - s + i - 1) / i : 0;
  uint64_t d = (uint64_t)(-(int64_t)i);
  return e < s ? (s - e + d - 1) / d : 0;
}
void parallel(void (*fn)(void*), void* data, unsigned n, const WorkShare* first) {
  int want = n ? (int)n : g_default;
  if (want > team_limit()) want = team_limit();
  if (nested(me())) want = 1;
  Team tm;
  fork_team(tm, want, fn, data, false, first);
  fn(data);
  join_team(tm);
}
}  // namespace
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n, nullptr); }
void GOMP_barrier() { barrier(me()); }
static int crit, atomic_lock;
void GOMP_critical_start() { mt::lock(&crit); }
void GOMP_critical_end() { mt::unlock(&crit); }
void GOMP_critical_name_start(void** p) { mt::lock(p); }
void GOMP_critical_name_end(void** p) { mt::unlock(p); }
void GOMP_atomic_start() { mt::lock(&atomic_lock); }
void GOMP_atomic_end() { mt::unlock(&atomic_lock); }
bool GOMP_single_start() {
  Thr* s = me();
  team_of(s);
  bool first;
  share(s, first);
  return first;
}
void* GOMP_single_copy_start() {
  Thr* s = me();
  team_of(s);
  bool first;
  WorkShare& w = share(s, first);
  if (first) return nullptr;
  barrier(s);
  return w.copy;
}
void GOMP_single_copy_end(void* d) {
  current(me()).copy = d;
  barrier(me());
}
void GOMP_loop_end() { barrier(me()); }
void GOMP_loop_end_nowait() {}
#define LOOP(K)                                                                                     \
  bool GOMP_loop_##K##_start(long s, long e, long i, long c, long* a, long* b) {                    \
    uint64_t x, y;                                                                                  \
    if (!start((uint64_t)s, (uint64_t)e, i, count_l(s, e, i), (uint64_t)c, x, y)) return false;     \
    *a = (long)x; *b = (long)y; return true;                                                        \
  }                                                                                                 \
  bool GOMP_loop_##K##_next(long* a, long* b) {                                                     \
    uint64_t x, y;                                                                                  \
    if (!take(current(me()), x, y)) return false;                                                   \
    *a = (long)x; *b = (long)y; return true;                                                        \
  }                                                                                                 \
  bool GOMP_loop_ull_##K##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { \
    uint64_t x, y;                                                                                  \
    if (!start(s, e, (int64_t)i, count_u(up, s, e, i), c, x, y)) return false;                      \
    *a = x; *b = y; return true;                                                                    \
  }                                                                                                 \
  bool GOMP_loop_ull_##K##_next(unsigned long long* a, unsigned long long* b) {                     \
    uint64_t x, y;                                                                                  \
    if (!take(current(me()), x, y)) return false;                                                   \
    *a = x; *b = y; return true;                                                                    \
  }                                                                                                 \
  PARLOOP(K)
#define PARLOOP(K)                                                                                  \
  void GOMP_parallel_loop_##K(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned) { \
    WorkShare w;                                                                                    \
    memset(&w, 0, sizeof w);                                                                        \
    w.next = (uint64_t)s; w.end = (uint64_t)e; w.incr = i; w.left = count_l(s, e, i); w.chunk = (uint64_t)c; \
    parallel(fn, data, n, &w);                                                                      \
  }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
// schedules without a chunk argument
#define RTLOOP(K)                                                                                   \
  bool GOMP_loop_##K##_start(long s, long e, long i, long* a, long* b) { return GOMP_loop_dynamic_start(s, e, i, 1, a, b); } \
  bool GOMP_loop_##K##_next(long* a, long* b) { return GOMP_loop_dynamic_next(a, b); }              \
  bool GOMP_loop_ull_##K##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) { return GOMP_loop_ull_dynamic_start(up, s, e, i, 1, a, b); } \
  bool GOMP_loop_ull_##K##_next(unsigned long long* a, unsigned long long* b) { return GOMP_loop_ull_dynamic_next(a, b); } \
  void GOMP_parallel_loop_##K(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, s, e, i, 1, f); }
RTLOOP(runtime) RTLOOP(nonmonotonic_runtime) RTLOOP(maybe_nonmonotonic_runtime)
unsigned GOMP_sections_start(unsigned n) {
  uint64_t a, b;
  return start(1, n + 1, 1, n, 1, a, b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_next() {
  uint64_t a, b;
  return take(current(me()), a, b) ? (unsigned)a : 0;
}
void GOMP_sections_end() { barrier(me()); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned f) {
  GOMP_parallel_loop_dynamic(fn, data, n, 1, (long)count + 1, 1, 1, f);
}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
  if (cpy) {
    char buf[4096];
    char* p = (char*)(((uintptr_t)buf + (uintptr_t)align - 1) & ~((uintptr_t)align - 1));
    if (size + align > (long)sizeof buf) rt::fatal("harness", "task too large");
    cpy(p, data);
    fn(p);
  } else
    fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskyield() { if (multi()) decide(false); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
int omp_get_num_threads() { Thr* s = me(); return s->team && !s->team->callers ? s->team->n : 1; }
int omp_get_thread_num() { Thr* s = me(); return s->team && !s->team->callers ? s->team_id : 0; }
int omp_get_max_threads() { return g_default < team_limit() ? g_default : team_limit(); }
void omp_set_num_threads(int n) { if (n > 0) g_default = n; }
int omp_get_num_procs() { return 4; }
int omp_in_parallel() { return nested(me()); }
int omp_get_thread_limit() { return MAXT; }
int omp_get_level() { int l = 0; for (Team* t = me()->team; t; t = t->outer) l++; return l; }
int omp_get_active_level() { return nested(me()); }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 1; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
double omp_get_wtime() { return rt::g_clock.mono_ns * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void**) {}
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { mt::lock(l); }
void omp_unset_lock(void** l) { mt::unlock(l); }
int omp_test_lock(void** l) { return mt::trylock(l); }
}
