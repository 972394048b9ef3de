// Runtime seams offered by both flavours.
#ifndef SIM_RT_HPP
#define SIM_RT_HPP
#include <cstdint>
#include <cstddef>
namespace rt {
enum Fill { F_ZERO = 0, F_NAN = 1, F_ONES = 2, F_RANDOM = 3, F_HUGE = 4, F_SMALL = 5, F_COUNT = 6 };
// ---- heap
void enter_run();              // called first thing in a forked run
void set_fill(int pattern, uint64_t seed);
uint64_t alloc_count();        // allocations made inside library scope
void arm_alloc_fail(uint64_t nth, bool sticky);  // nth>=1 from now, in scope
void disarm_alloc_fail();
uint64_t alloc_failures();
uint64_t live_blocks();
uint64_t live_bytes();
uint64_t live_scoped();         // blocks allocated in library scope and still held
extern bool g_live_scoped_only;
uint64_t seq_now();            // allocation sequence number
// calls f for every live block with seq in [a,b)
void for_live(uint64_t a, uint64_t b, void (*f)(void* p, size_t n, uint64_t seq, void* arg), void* arg);
// library scope: alloc faults hit and steps count only while > 0
#ifdef SIM_MT
#define SIM_TLS __thread
#else
#define SIM_TLS
#endif
extern SIM_TLS int g_scope;
struct Lib { int o; Lib() : o(g_scope) { g_scope = 1; } ~Lib() { g_scope = o; } };
struct NoLib { int o; NoLib() : o(g_scope) { g_scope = 0; } ~NoLib() { g_scope = o; } };
// ---- steps (simulated time of the library code, in basic blocks)
extern uint64_t g_steps, g_step_limit;
extern unsigned char g_cov[1 << 16];
// ---- clock
struct Clock {
  int64_t wall_ns = 1000000000000ll;  // gettimeofday / CLOCK_REALTIME
  int64_t mono_ns = 5000000000ll;     // CLOCK_MONOTONIC
  int64_t cpu_ns = 7000000ll;         // clock()
  int64_t tick_ns = 0;                // added to all of them at every reading
  uint64_t reads = 0;
  int64_t (*hook)(int which) = nullptr;  // extra ns to add at a reading
};
extern Clock g_clock;
// ---- files
struct DiskPlan {
  bool active = false;
  uint64_t capacity = ~0ull;      // bytes until ENOSPC
  uint64_t fail_write_at = 0;     // nth write returns -1 (1-based)
  int fail_errno = 5;
  bool sticky = false;
  uint64_t short_write_at = 0;    // nth write is short
  uint64_t eintr_at = 0;          // nth write returns EINTR once
  bool fail_open = false;
  bool fail_close = false;
  // state
  uint64_t writes = 0, opens = 0, closes = 0, fired = 0;
  char buf[1 << 16];
  uint64_t len = 0;
  int fd = -1;
};
extern DiskPlan g_disk;
// ---- fatal
[[noreturn]] void fatal(const char* cls, const char* fmt, ...);
extern void (*g_fatal_hook)(const char* cls, const char* msg);
void install_handlers();
}  // namespace rt
#endif
