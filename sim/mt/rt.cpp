// Multi-thread runtime: the single-thread one plus a scheduler and a
// happens-before race detector. Compiled without instrumentation.
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <unordered_map>
extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __real_memmove(void*, const void*, size_t);
int __real_memcmp(const void*, const void*, size_t);
}
#define memcpy __real_memcpy
#define memset __real_memset
namespace mt {
static void on_alloc(void* p, size_t n);
static void on_free(void* p, size_t n);
}
#include "st/rt.cpp"

#include <linux/futex.h>
#include <pthread.h>
#include <cmath>
#include "mt/internal.hpp"
#include "mt/mt.hpp"

namespace mt {
Thr g_thr[MAXT];
static __thread Thr* t_self = nullptr;
Thr* me() { return t_self ? t_self : &g_thr[0]; }
static bool g_multi = false;
bool multi() { return g_multi; }
static int g_live = 1, g_limit = 64;
static Config cfg;
static sim::Rng* rng = nullptr;
static uint64_t countdown = ~0ull, n_switch = 0, n_preempt = 0, n_points = 0, n_regions = 0, n_checked = 0, shash = 1, max_thr = 1;
static uint64_t low_prio = 0;
static uint64_t change[16];
static int nchange = 0;
static bool resched = false;
struct Tok { int tid, next; uint64_t k; };
static Tok* rec = nullptr;
static uint64_t nrec = 0;
static const uint64_t MAXREC = 1 << 18;
static std::unordered_map<uint64_t, int>* plan = nullptr;
static bool replay = false;

static void fwake(int* w) { syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void wake(Thr* t) {
  __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST);
  fwake(&t->go);
}
static void park(Thr* t) {
  for (int i = 0; i < 40; i++) {
    if (__atomic_exchange_n(&t->go, 0, __ATOMIC_SEQ_CST)) return;
    __builtin_ia32_pause();
  }
  while (!__atomic_exchange_n(&t->go, 0, __ATOMIC_SEQ_CST)) syscall(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
}
static void draw_countdown() {
  if (cfg.strategy == ST_WALK) {
    double u = rng->uni(1e-12, 1.);
    double k = cfg.p >= 1 ? 1 : cfg.p <= 0 ? 1e18 : 1 + std::floor(std::log(u) / std::log(1 - cfg.p));
    countdown = k > 1e17 ? ~0ull : (uint64_t)k;
  } else if (cfg.strategy == ST_QUANTUM)
    countdown = cfg.quantum;
  else
    countdown = ~0ull;
}
static Thr* pick(Thr* self, bool forced) {
  Thr* c[MAXT];
  int n = 0;
  for (auto& t : g_thr)
    if (t.runnable) c[n++] = &t;
  if (n == 0) {
    char b[600] = "";
    size_t l = 0;
    for (auto& t : g_thr)
      if (t.busy) l += (size_t)snprintf(b + l, sizeof b - l, " thread %d%s", t.id, t.wait ? " waits" : "");
    rt::fatal("deadlock", "no thread can run:%s", b);
  }
  if (replay) {
    auto it = plan->find(((uint64_t)self->id << 48) | self->points);
    if (it != plan->end() && g_thr[it->second & 15].runnable) return &g_thr[it->second & 15];
    if (!forced) return self;
    return c[0];
  }
  if (cfg.strategy == ST_PCT) {
    Thr* b = c[0];
    for (int i = 1; i < n; i++)
      if (c[i]->prio > b->prio) b = c[i];
    return b;
  }
  return c[rng->below((uint64_t)n)];
}
static void go_to(Thr* self, Thr* t, bool forced) {
  if (t == self && !forced) return;
  shash = sim::mix(shash, ((uint64_t)self->id << 48) ^ (self->points << 4) ^ (uint64_t)t->id);
  if (nrec < MAXREC) rec[nrec++] = {self->id, t->id, self->points};
  n_switch++;
  if (!forced) n_preempt++;
  if (t == self) return;
  wake(t);
  park(self);
}
void decide(bool forced) {
  Thr* s = me();
  s->points++;
  go_to(s, pick(s, forced), forced);
}
static inline void point(const void* pc) {
  Thr* s = me();
  s->points++;
  n_points++;
  if (++rt::g_steps == rt::g_step_limit && rt::g_step_limit) rt::fatal("nonterm", "no return within the step budget (%llu memory accesses)", (unsigned long long)rt::g_step_limit);
  if (replay) {
    Thr* t = pick(s, false);
    if (t != s) go_to(s, t, false);
    return;
  }
  if (cfg.strategy == ST_PCT) {
    bool hit = resched;
    for (int i = 0; i < nchange; i++)
      if (change[i] == n_points) { s->prio = low_prio--; hit = true; }
    if (!hit) return;
    resched = false;
  } else if (--countdown)
    return;
  else
    draw_countdown();
  uintptr_t h = (uintptr_t)pc;
  rt::g_cov[(h ^ (h >> 13)) & 0xffff] = 1;
  Thr* t = pick(s, false);
  if (t != s) go_to(s, t, false);
}
// a thread that spins must not starve the one it waits for
static void spin(Thr* s) {
  if (++s->spins < 64) return;
  s->spins = 0;
  if (cfg.strategy == ST_PCT) { s->prio = low_prio--; resched = true; }
  else countdown = 1;
}
void block(const void* on) {
  Thr* s = me();
  s->runnable = false;
  s->wait = on;
  s->points++;
  Thr* t = pick(s, true);
  go_to(s, t, true);
}
void unblock(const void* on) {
  for (auto& t : g_thr)
    if (t.busy && !t.runnable && t.wait == on) { t.runnable = true; t.wait = nullptr; resched = true; }
}
// ------------------------------------------------------------ vector clocks
static uint32_t vc[MAXT][MAXT];
void edge(Thr* a, Thr* b) {
  for (int i = 0; i < MAXT; i++)
    if (vc[a->id][i] > vc[b->id][i]) vc[b->id][i] = vc[a->id][i];
  vc[a->id][a->id]++;
}
struct Sync { uintptr_t key; uint32_t v[MAXT]; int owner; int depth; };
static const size_t NSYNC = 1 << 16;
static Sync g_sync[NSYNC];
static Sync& sync_of(const void* p) {
  uintptr_t k = (uintptr_t)p;
  size_t i = (k * 0x9e3779b97f4a7c15ull) >> 48;
  for (size_t n = 0; n < NSYNC; n++, i = (i + 1) & (NSYNC - 1)) {
    if (g_sync[i].key == k) return g_sync[i];
    if (!g_sync[i].key) { g_sync[i].key = k; g_sync[i].owner = -1; return g_sync[i]; }
  }
  rt::fatal("harness", "too many synchronisation objects");
}
void acquire_edge(const void* k) {
  Sync& s = sync_of(k);
  uint32_t* v = vc[me()->id];
  for (int i = 0; i < MAXT; i++)
    if (s.v[i] > v[i]) v[i] = s.v[i];
}
void release_edge(const void* k) {
  Sync& s = sync_of(k);
  int id = me()->id;
  uint32_t* v = vc[id];
  for (int i = 0; i < MAXT; i++)
    if (v[i] > s.v[i]) s.v[i] = v[i];
  v[id]++;
}
void lock(const void* k, bool recursive) {
  Thr* t = me();
  if (g_multi && rt::g_scope > 0) point(k);
  Sync* s = &sync_of(k);
  while (s->owner != -1) {
    if (s->owner == t->id) {
      if (recursive) { s->depth++; return; }
      if (!g_multi) rt::fatal("deadlock", "a thread locks a mutex it holds");
    }
    block(k);
    s = &sync_of(k);
  }
  s->owner = t->id;
  s->depth = 1;
  acquire_edge(k);
}
bool trylock(const void* k) {
  Thr* t = me();
  if (g_multi && rt::g_scope > 0) point(k);
  Sync& s = sync_of(k);
  if (s.owner != -1) { spin(t); return false; }
  s.owner = t->id;
  s.depth = 1;
  acquire_edge(k);
  return true;
}
void unlock(const void* k) {
  Sync& s = sync_of(k);
  if (s.depth > 1) { s.depth--; return; }
  s.owner = -1;
  s.depth = 0;
  release_edge(k);
  unblock(k);
  if (g_multi && rt::g_scope > 0) point(k);
}
// ------------------------------------------------------------------ shadow
struct Cell { uint32_t clk, pc; uint8_t tid, mask, flags, pad; uint32_t pad2; };  // 16 bytes
enum { F_W = 1, F_A = 2 };
static const uintptr_t SH_ARENA = 0x200000000000ull, SH_GLOB = 0x240000000000ull, SH_MAIN = 0x250000000000ull, SH_WORK = 0x260000000000ull;
static const uintptr_t GLOB_END = 0x10000000ull, WSTK = 0x300000000000ull;
static const size_t WSTK_SIZE = 8ull << 20, MAIN_SIZE = 8ull << 20;
static uintptr_t main_lo = 0, main_hi = 0;
static void map_at(uintptr_t a, size_t n) {
  void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)a) rt::fatal("harness", "cannot map %zu bytes of shadow memory", n);
}
static inline Cell* shadow(uintptr_t a) {
  uintptr_t o;
  if ((o = a - rt::BASE) < rt::ARENA) return (Cell*)(SH_ARENA + (o >> 3) * 64);
  if (a < GLOB_END) return (Cell*)(SH_GLOB + (a >> 3) * 64);
  if (a >= main_lo && a < main_hi) return (Cell*)(SH_MAIN + ((a - main_lo) >> 3) * 64);
  if ((o = a - WSTK) < WSTK_SIZE * MAXT) return (Cell*)(SH_WORK + (o >> 3) * 64);
  return nullptr;
}
static void fname(char* out, size_t n, const void* pc) {
  Dl_info di;
  if (!pc || !dladdr((void*)((uintptr_t)pc - 1), &di) || !di.dli_sname) { snprintf(out, n, "?"); return; }
  int st = 0;
  char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
  const char* nm = d && st == 0 ? d : di.dli_sname;
  size_t k = 0;
  int depth = 0;
  for (const char* q = nm; *q && k + 1 < n && k < 120; q++) {
    if (*q == '<') depth++;
    else if (*q == '>') depth--;
    else if (*q == '(' && depth == 0 && k) break;
    else if (depth == 0) out[k++] = *q;
  }
  out[k] = 0;
}
static void race(Thr* t, uintptr_t a, int size, int flags, const void* pc, const Cell& c) {
  rt::g_scope = 0;
  g_multi = false;
  char f[160], g[160], st[700] = "", where[200];
  fname(f, sizeof f, pc);
  fname(g, sizeof g, (void*)(uintptr_t)c.pc);
  if (getenv("SIM_RACEPC")) { rt::NoLib nl; fprintf(stderr, "addr %lx pc %p other %x stack", a, pc, c.pc); for (uint32_t i = t->depth < 512 ? t->depth : 512; i-- > 0;) fprintf(stderr, " %p", t->stack[i]); fprintf(stderr, "\n"); }
  size_t l = 0;
  int shown = 0;
  char last[160] = "";
  for (uint32_t i = t->depth < 512 ? t->depth : 512; i-- > 0 && shown < 5;) {
    char b[160];
    fname(b, sizeof b, t->stack[i]);
    if (!strncmp(b, "Eigen::", 7) || !strncmp(b, "std::", 5) || !strcmp(b, last) || !strncmp(b, "void Eigen", 10)) continue;
    strcpy(last, b);
    l += (size_t)snprintf(st + l, sizeof st - l, " < %s", b);
    shown++;
  }
  if (a - rt::BASE < rt::ARENA) snprintf(where, sizeof where, "on the heap");
  else if (a < GLOB_END) {
    Dl_info di;
    if (dladdr((void*)a, &di) && di.dli_sname) {
      int s2 = 0;
      char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &s2);
      snprintf(where, sizeof where, "in the global %s", d && !s2 ? d : di.dli_sname);
    } else snprintf(where, sizeof where, "in a global");
  } else snprintf(where, sizeof where, "on a stack");
  rt::fatal("race", "%s%s of %d bytes %s by thread %d in %s%s conflicts with an unordered %s%s by thread %d in %s", (flags & F_A) ? "atomic " : "", (flags & F_W) ? "write" : "read", size, where, t->id, f, st, (c.flags & F_A) ? "atomic " : "", (c.flags & F_W) ? "write" : "read", c.tid - 1, g);
}
static inline void check8(Thr* t, uintptr_t a, uint8_t mask, int flags, const void* pc, int size) {
  Cell* c = shadow(a);
  if (!c) return;
  n_checked++;
  const uint32_t* v = vc[t->id];
  Cell* dst = nullptr;
  Cell* old = nullptr;
  for (int i = 0; i < 4; i++) {
    Cell& k = c[i];
    if (!k.tid) { if (!dst) dst = &k; continue; }
    int o = k.tid - 1;
    if (o == t->id) {
      if (k.mask == mask && (flags & F_W) == (k.flags & F_W) && (flags & F_A) == (k.flags & F_A)) { dst = &k; }
      continue;
    }
    bool before = k.clk <= v[o];
    if (before) { old = &k; continue; }
    if ((k.mask & mask) && ((flags | k.flags) & F_W) && !((flags & k.flags) & F_A)) race(t, a, size, flags, pc, k);
  }
  if (!dst) dst = old ? old : &c[(a >> 3 ^ n_points) & 3];
  dst->clk = v[t->id];
  dst->pc = (uint32_t)(uintptr_t)pc;
  dst->tid = (uint8_t)(t->id + 1);
  dst->mask = mask;
  dst->flags = (uint8_t)flags;
}
static void check(uintptr_t a, size_t n, int flags, const void* pc) {
  Thr* t = me();
  uintptr_t e = a + n;
  for (uintptr_t g = a & ~(uintptr_t)7; g < e; g += 8) {
    unsigned lo = a > g ? (unsigned)(a - g) : 0, hi = e < g + 8 ? (unsigned)(e - g) : 8;
    check8(t, g, (uint8_t)((0xffu << lo) & (0xffu >> (8 - hi))), flags, pc, (int)n);
  }
}
static inline void access(const void* a, size_t n, int flags, const void* pc) {
  if (__builtin_expect(!g_multi, 1)) return;
  if (rt::g_scope <= 0) return;
  point(pc);
  check((uintptr_t)a, n, flags, pc);
}
static void on_alloc(void* p, size_t n) {
  if (!g_multi) return;
  uintptr_t a = (uintptr_t)p & ~(uintptr_t)7;
  memset((void*)shadow(a), 0, (((uintptr_t)p + n - a + 7) >> 3) * 64);
}
static void on_free(void* p, size_t n) {
  if (!g_multi || rt::g_scope <= 0 || !n) return;
  check((uintptr_t)p, n, F_W, __builtin_return_address(0));
}
// ----------------------------------------------------------------- threads
static void set_altstack(int id) {
  static char stk[MAXT][32768];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = stk[id];
  ss.ss_size = sizeof stk[id];
  sigaltstack(&ss, nullptr);
}
static void* worker(void* a) {
  Thr* s = (Thr*)a;
  t_self = s;
  set_altstack(s->id);
  for (;;) {
    park(s);
    rt::g_scope = s->scope;
    s->fn(s->data);
    rt::g_scope = 0;
    // finished: whoever waits for the team may go on
    Team* tm = s->job_team;
    s->busy = s->runnable = false;
    s->fn = nullptr;
    g_live--;
    tm->left--;
    if (tm->left == 0) unblock(tm);
    s->points++;
    Thr* t = pick(s, true);
    shash = sim::mix(shash, ((uint64_t)s->id << 48) ^ (s->points << 4) ^ (uint64_t)t->id);
    if (nrec < MAXREC) rec[nrec++] = {s->id, t->id, s->points};
    n_switch++;
    wake(t);
  }
  return nullptr;
}
int fork_team(Team& tm, int n, void (*fn)(void*), void* data, bool callers, const WorkShare* first) {
  Thr* s = me();
  memset(&tm, 0, sizeof tm);
  tm.master = s;
  tm.outer = s->team;
  tm.callers = callers;
  if (first) { tm.ws[0] = *first; tm.ws_made = 1; }
  if (!g_multi) s->depth = 0;
  tm.members[0] = s;
  int got = 1;
  for (int i = 1; i < MAXT && got < n; i++) {
    Thr& w = g_thr[i];
    if (w.busy) continue;
    if (!w.started) {
      rt::NoLib nl;
      w.id = i;
      pthread_attr_t at;
      pthread_attr_init(&at);
      map_at(WSTK + (uintptr_t)i * WSTK_SIZE, WSTK_SIZE);
      pthread_attr_setstack(&at, (void*)(WSTK + (uintptr_t)i * WSTK_SIZE + 65536), WSTK_SIZE - 65536);
      pthread_t pt;
      if (pthread_create(&pt, &at, worker, &w)) rt::fatal("harness", "cannot create a thread");
      w.started = true;
    }
    w.busy = w.runnable = true;
    w.wait = nullptr;
    w.fn = fn;
    w.data = data;
    w.team = w.job_team = &tm;
    w.team_id = got;
    w.ws = tm.ws_made;
    w.depth = 0;
    w.scope = rt::g_scope;
    w.prio = rng ? 1000 + rng->below(1u << 30) : 1;
    for (int u = 0; u < MAXT; u++)
      if (u != i) vc[i][u] = vc[s->id][u];
    vc[i][i]++;
    tm.members[got++] = &w;
    g_live++;
  }
  if ((uint64_t)got > max_thr) max_thr = (uint64_t)got;
  tm.n = got;
  tm.left = got - 1;
  n_regions++;
  vc[s->id][s->id]++;
  s->team = &tm;
  s->team_id = 0;
  s->ws = tm.ws_made;
  g_multi = g_live > 1;
  if (got > 1) {
    resched = true;
    decide(false);
  }
  return got;
}
void join_team(Team& tm) {
  Thr* s = me();
  while (tm.left > 0) block(&tm);
  for (int i = 1; i < tm.n; i++) edge(tm.members[i], s);
  s->team = tm.outer;
  s->team_id = 0;
  if (tm.outer)
    for (int i = 0; i < tm.outer->n; i++)
      if (tm.outer->members[i] == s) s->team_id = i;
  g_multi = g_live > 1;
}
void begin(const Config& c) {
  cfg = c;
  rng = new sim::Rng(c.seed);
  for (int i = 0; i < MAXT; i++) { g_thr[i].id = i; vc[i][i] = 1; }
  g_thr[0].busy = g_thr[0].runnable = true;
  g_thr[0].prio = 1000 + rng->below(1u << 30);
  low_prio = 999;
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
  main_hi = (sp + 65536) & ~(uintptr_t)4095;
  main_lo = main_hi - MAIN_SIZE + 65536;
  map_at(SH_ARENA, rt::ARENA * 8);
  map_at(SH_GLOB, GLOB_END * 8);
  map_at(SH_MAIN, MAIN_SIZE * 8);
  map_at(SH_WORK, WSTK_SIZE * MAXT * 8);
  rec = (Tok*)mmap(nullptr, MAXREC * sizeof(Tok), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  replay = c.replay;
  if (replay) {
    plan = new std::unordered_map<uint64_t, int>;
    const char* p = c.sched.c_str();
    while (*p) {
      char* e;
      uint64_t tid = strtoull(p, &e, 10);
      if (*e != ':') break;
      uint64_t k = strtoull(e + 1, &e, 10);
      if (*e != ':') break;
      int nx = (int)strtol(e + 1, &e, 10);
      (*plan)[(tid << 48) | k] = nx;
      if (*e != '.') break;
      p = e + 1;
    }
  }
  if (cfg.strategy == ST_PCT) {
    nchange = std::min(cfg.depth, 16);
    for (int i = 0; i < nchange; i++) change[i] = 1 + rng->below(cfg.horizon);
  }
  draw_countdown();
}
void set_team_limit(int n) { g_limit = n; }
int team_limit() { return g_limit; }
namespace {
struct Callers { const std::vector<std::function<void()>>* f; };
void call_one(void* a) { Thr* s = me(); (*((Callers*)a)->f)[(size_t)s->team_id](); }
}  // namespace
void run(const std::vector<std::function<void()>>& f) {
  static Team tm;
  Callers c{&f};
  Thr* s = me();
  int n = fork_team(tm, (int)f.size(), call_one, &c, true);
  if (n != (int)f.size()) rt::fatal("harness", "too few threads");
  f[0]();
  (void)s;
  join_team(tm);
}
Stats stats() { return {n_switch, n_preempt, n_points, n_regions, n_checked, shash, max_thr}; }
std::string schedule() {
  std::string s;
  for (uint64_t i = 0; i < nrec; i++) {
    if (i) s += '.';
    s += std::to_string(rec[i].tid) + ":" + std::to_string(rec[i].k) + ":" + std::to_string(rec[i].next);
  }
  return s;
}
}  // namespace mt

using namespace mt;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(const void* pc) {
  if (!g_multi) return;
  Thr* t = me();
  if (t->depth < 512) t->stack[t->depth] = pc;
  t->depth++;
}
void __tsan_func_exit() {
  if (!g_multi) return;
  Thr* t = me();
  if (t->depth) t->depth--;
}
#define ACC(N)                                                                   \
  void __tsan_read##N(void* a) { mt::access(a, N, 0, PC); }                      \
  void __tsan_write##N(void* a) { mt::access(a, N, F_W, PC); }                   \
  void __tsan_unaligned_read##N(void* a) { mt::access(a, N, 0, PC); }            \
  void __tsan_unaligned_write##N(void* a) { mt::access(a, N, F_W, PC); }         \
  void __tsan_volatile_read##N(void* a) { mt::access(a, N, 0, PC); }             \
  void __tsan_volatile_write##N(void* a) { mt::access(a, N, F_W, PC); }          \
  void __tsan_unaligned_volatile_read##N(void* a) { mt::access(a, N, 0, PC); }   \
  void __tsan_unaligned_volatile_write##N(void* a) { mt::access(a, N, F_W, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) mt::access(p, 8, F_W, PC); }
void __tsan_vptr_read(void** p) { mt::access(p, 8, 0, PC); }
void __tsan_read_range(void* a, unsigned long n) { if (n) mt::access(a, n, 0, PC); }
void __tsan_write_range(void* a, unsigned long n) { if (n) mt::access(a, n, F_W, PC); }
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (n) { mt::access(s, n, 0, PC); mt::access(d, n, F_W, PC); }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (n) { mt::access(s, n, 0, PC); mt::access(d, n, F_W, PC); }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (n) mt::access(d, n, F_W, PC);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  if (n) { mt::access(a, n, 0, PC); mt::access(b, n, 0, PC); }
  return __real_memcmp(a, b, n);
}
// ---- atomics
static inline bool acq(int m) { return m == __ATOMIC_ACQUIRE || m == __ATOMIC_CONSUME || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static inline bool rel(int m) { return m == __ATOMIC_RELEASE || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static inline bool atom(const volatile void* a, size_t n, int fl, const void* pc) {
  if (!g_multi || rt::g_scope <= 0) return false;
  point(pc);
  check((uintptr_t)a, n, fl | F_A, pc);
  return true;
}
#define ATOMIC(B, T)                                                                                     \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) {                                               \
    bool on = atom(a, sizeof(T), 0, PC);                                                                 \
    T v = *a;                                                                                            \
    if (on) { spin(me()); if (acq(mo)) acquire_edge((const void*)a); }                                   \
    return v;                                                                                            \
  }                                                                                                      \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) {                                            \
    if (atom(a, sizeof(T), F_W, PC) && rel(mo)) release_edge((const void*)a);                            \
    *a = v;                                                                                              \
  }                                                                                                      \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) {                                            \
    if (atom(a, sizeof(T), F_W, PC)) { spin(me()); if (acq(mo)) acquire_edge((const void*)a); if (rel(mo)) release_edge((const void*)a); } \
    T o = *a; *a = v; return o;                                                                          \
  }                                                                                                      \
  ATOMIC_OP(B, T, add, o + v) ATOMIC_OP(B, T, sub, o - v) ATOMIC_OP(B, T, and, o & v)                    \
  ATOMIC_OP(B, T, or, o | v) ATOMIC_OP(B, T, xor, o ^ v) ATOMIC_OP(B, T, nand, ~(o & v))                 \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) {                \
    if (atom(a, sizeof(T), F_W, PC)) { spin(me()); if (acq(mo)) acquire_edge((const void*)a); if (rel(mo)) release_edge((const void*)a); } \
    T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0;                                       \
  }                                                                                                      \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int f) {                \
    return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, f);                                   \
  }                                                                                                      \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int f) {                    \
    __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, f);                                         \
    return c;                                                                                            \
  }
#define ATOMIC_OP(B, T, NAME, EXPR)                                                                      \
  T __tsan_atomic##B##_fetch_##NAME(volatile T* a, T v, int mo) {                                        \
    if (atom(a, sizeof(T), F_W, PC)) { if (acq(mo)) acquire_edge((const void*)a); if (rel(mo)) release_edge((const void*)a); } \
    T o = *a; *a = (T)(EXPR); return o;                                                                  \
  }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {
  static int fence;
  if (g_multi && rt::g_scope > 0) { acquire_edge(&fence); release_edge(&fence); }
}
void __tsan_atomic_signal_fence(int) {}
// ---- mutexes, once, guards
int pthread_mutex_lock(pthread_mutex_t* m) { mt::lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { return mt::trylock(m) ? 0 : EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t* m) { mt::unlock(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { mt::lock(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { mt::lock(m); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { mt::unlock(m); return 0; }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  static const int DONE = 0x53;
  if (*o == DONE) { if (g_multi) acquire_edge(o); return 0; }
  while (*o == 1) block(o);
  if (*o == DONE) { acquire_edge(o); return 0; }
  *o = 1;
  try { f(); } catch (...) { *o = 0; unblock(o); throw; }
  *o = DONE;
  release_edge(o);
  unblock(o);
  return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
  if (*(volatile char*)g) { if (g_multi) acquire_edge(g); return 0; }
  if (g_multi && rt::g_scope > 0) point(g);
  while (((volatile char*)g)[1]) block(g);
  if (*(volatile char*)g) { acquire_edge(g); return 0; }
  ((volatile char*)g)[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  release_edge(g);
  *(volatile char*)g = 1;
  ((volatile char*)g)[1] = 0;
  unblock(g);
}
void __cxa_guard_abort(uint64_t* g) {
  ((volatile char*)g)[1] = 0;
  unblock(g);
}
}
