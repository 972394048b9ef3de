// Single-thread runtime: heap, clock, disk, steps, crash capture.
// This file is compiled without instrumentation.
#include <initializer_list>
#include "common/rt.hpp"
#include "common/rng.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <typeinfo>
#include <cxxabi.h>

namespace rt {
SIM_TLS int g_scope = 0;
uint64_t g_steps = 0, g_step_limit = 0;
unsigned char g_cov[1 << 16];
Clock g_clock;
DiskPlan g_disk;
void (*g_fatal_hook)(const char*, const char*) = nullptr;

void fatal(const char* cls, const char* fmt, ...) {
  static int depth = 0;
  char msg[1500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(msg, sizeof msg, fmt, ap);
  va_end(ap);
  g_step_limit = 0;
  if (depth++ == 0 && g_fatal_hook) g_fatal_hook(cls, msg);
  _exit(3);
}

// ------------------------------------------------------------------ heap
struct Hdr {            // 32 bytes just below the user pointer
  uint64_t magic;
  uint64_t size;
  uint64_t seq;
  uint32_t cls;
  uint32_t back;        // distance from block start to user pointer
};
static const uint64_t LIVE = 0x51a3c0de11f3b10cull, DEAD = 0xdeadf4eedeadf4eeull,
                      TAIL = 0x7a117a11caca0caaull;
static const uintptr_t BASE = 0x100000000000ull;
static const size_t ARENA = 4ull << 30;
static uintptr_t bump = 0, lim = 0;
static const size_t RUN_OFF = 1ull << 30;
struct FreeNode { FreeNode* next; };
static FreeNode *fhead[64], *ftail[64];
static uint32_t flen[64];
static uint64_t seq = 0, nlive = 0, blive = 0, fails = 0, scoped = 0;
static const uint32_t SCOPED = 0x80000000u;
static uint64_t nscoped = 0;
static uint64_t fail_at = 0;
static bool fail_sticky = false;
static int fill = F_NAN;
static uint64_t fill_seed = 1;
static bool in_run = false;
static SIM_TLS bool just_freed = false;
static uintptr_t run_base = 0;

static int cls_of(size_t n) {  // classes: 64,96,128,192,256,...
  int c = 0;
  size_t s = 64;
  while (s < n) {
    size_t h = s + s / 2;
    c++;
    if (h >= n) return c;
    s *= 2;
    c++;
  }
  return c;
}
static size_t cls_size(int c) {
  size_t s = 64ull << (c / 2);
  return (c & 1) ? s + s / 2 : s;
}
static void do_fill(void* p, size_t n, uint64_t sq) {
  uint64_t v;
  switch (fill) {
    case F_ZERO: memset(p, 0, n); return;
    case F_ONES: memset(p, 0xff, n); return;
    case F_NAN: v = 0x7ff8dead00000000ull; break;
    case F_HUGE: v = 0x7e37e43c8800759cull; break;  // 1e300
    case F_SMALL: v = 0x3ff0000000000000ull; break;  // 1.0
    default: {
      uint64_t s = sim::mix(fill_seed, sq);
      size_t i = 0;
      for (; i + 8 <= n; i += 8) {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        uint64_t w = s ^ (s >> 31);
        memcpy((char*)p + i, &w, 8);
      }
      for (; i < n; i++) ((char*)p)[i] = (char)(s >> (8 * (i & 7)));
      return;
    }
  }
  size_t i = 0;
  for (; i + 8 <= n; i += 8) memcpy((char*)p + i, &v, 8);
  if (i < n) memcpy((char*)p + i, &v, n - i);
}

static void arena_init() {
  void* p = mmap((void*)BASE, ARENA, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)BASE) {
    static const char m[] = "sim: cannot map arena\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(9);
  }
  bump = BASE;
  lim = BASE + RUN_OFF;
}

// for debugging: gdb breaks here at allocation number SIM_TRAP
static uint64_t g_trap_seq = 0;
extern "C" __attribute__((noinline)) void alloc_trap() { asm volatile(""); }
static void* alloc(size_t n, size_t align) {
  if (!bump) arena_init();
  if (g_scope > 0) {
    scoped++;
    // Eigen's resize frees before it allocates and keeps the freed pointer
    // when that allocation throws: such a pair is not made to fail.
    bool realloc = just_freed;
    just_freed = false;
    if (realloc) {
      if (scoped == fail_at) fail_at++;
    } else if (fail_at && (scoped == fail_at || (fail_sticky && scoped > fail_at))) {
      fails++;
      errno = ENOMEM;
      return nullptr;
    }
  }
  if (n > (1ull << 29)) {
    errno = ENOMEM;
    return nullptr;
  }
  size_t need = 32 + n + 8 + (align > 16 ? align : 0);
  int c = cls_of(need);
  uintptr_t blk;
  if (align <= 16 && fhead[c] && flen[c] > 16) {
    FreeNode* f = fhead[c];
    fhead[c] = f->next;
    if (!fhead[c]) ftail[c] = nullptr;
    flen[c]--;
    blk = (uintptr_t)f - 32;
    // the poison must be intact
    Hdr* h = (Hdr*)blk;
    if (h->magic != DEAD) fatal("heap", "freed block header overwritten");
    const uint64_t* q = (const uint64_t*)(blk + 40);
    size_t m = (h->size + 7) / 8;
    for (size_t i = 1; i < m; i++)
      if (*q++ != 0xfff1f1f1f1f1f1f1ull) fatal("heap", "write after free in block of %llu bytes", (unsigned long long)h->size);
  } else {
    size_t sz = cls_size(c);
    if (bump + sz > lim) fatal("oom", "simulated heap exhausted");
    blk = bump;
    bump += sz;
  }
  uintptr_t u = blk + 32;
  if (align > 16) u = (u + align - 1) & ~(uintptr_t)(align - 1);
  Hdr* h = (Hdr*)(u - 32);
  h->magic = LIVE;
  h->size = n;
  h->seq = ++seq;
  h->cls = (uint32_t)c | (g_scope > 0 ? SCOPED : 0);
  if (g_scope > 0) nscoped++;
  h->back = (uint32_t)(u - blk);
  if (__builtin_expect(seq == g_trap_seq, 0)) alloc_trap();
  do_fill((void*)u, n, seq);
  memcpy((void*)(u + n), &TAIL, 8);
  nlive++;
  blive += n;
#ifdef SIM_MT
  mt::on_alloc((void*)u, n);
#endif
  return (void*)u;
}
static void dealloc(void* p) {
  if (!p) return;
  uintptr_t u = (uintptr_t)p;
  if (u < BASE || u >= BASE + ARENA) fatal("heap", "free of foreign pointer");
  Hdr* h = (Hdr*)(u - 32);
  if (h->magic == DEAD) fatal("heap", "double free");
  if (h->magic != LIVE) fatal("heap", "heap header corrupted");
  uint64_t t;
  memcpy(&t, (void*)(u + h->size), 8);
  if (t != TAIL) fatal("heap", "heap overflow past a block of %llu bytes", (unsigned long long)h->size);
  if (g_scope > 0) just_freed = true;
#ifdef SIM_MT
  mt::on_free(p, h->size);
#endif
  nlive--;
  if (h->cls & SCOPED) nscoped--;
  h->cls &= ~SCOPED;
  blive -= h->size;
  h->magic = DEAD;
  size_t cap = (h->size + 7) & ~(size_t)7;
  for (size_t i = 0; i < cap; i += 8) {
    uint64_t v = 0xfff1f1f1f1f1f1f1ull;
    memcpy((char*)p + i, &v, 8);
  }
  if (h->back != 32 || (in_run && u < run_base)) return;
  FreeNode* f = (FreeNode*)p;
  if (h->size < 8) { uint64_t z = 0; memcpy(p, &z, 8); }
  f->next = nullptr;
  int c = (int)h->cls;
  if (ftail[c]) ftail[c]->next = f; else fhead[c] = f;
  ftail[c] = f;
  flen[c]++;
}

void enter_run() {
  in_run = true;
  run_base = bump = BASE + RUN_OFF;
  lim = BASE + ARENA;
  memset(fhead, 0, sizeof fhead);
  memset(ftail, 0, sizeof ftail);
  memset(flen, 0, sizeof flen);
  seq = 1000000;
  if (const char* t = getenv("SIM_TRAP")) g_trap_seq = strtoull(t, nullptr, 10);
  scoped = 0;
  fails = 0;
  g_steps = 0;
  memset(g_cov, 0, sizeof g_cov);
}
void set_fill(int pattern, uint64_t seed) { fill = pattern; fill_seed = seed; }
uint64_t alloc_count() { return scoped; }
void arm_alloc_fail(uint64_t nth, bool sticky) { fail_at = scoped + nth; fail_sticky = sticky; }
void disarm_alloc_fail() { fail_at = 0; fail_sticky = false; }
uint64_t alloc_failures() { return fails; }
uint64_t live_blocks() { return nlive; }
uint64_t live_bytes() { return blive; }
uint64_t live_scoped() { return nscoped; }
uint64_t seq_now() { return seq + 1; }
bool g_live_scoped_only = false;
void for_live(uint64_t a, uint64_t b, void (*f)(void*, size_t, uint64_t, void*), void* arg) {
  uintptr_t p = run_base;
  while (p < bump) {
    // align>16 blocks are not walked (header is displaced): their first word
    // is unused, skip by class of the displaced header when possible
    Hdr* h = (Hdr*)p;
    if (h->magic != LIVE && h->magic != DEAD) { p += 16; continue; }
    if (h->magic == LIVE && (!g_live_scoped_only || (h->cls & SCOPED)) && h->seq >= a && h->seq < b) f((void*)(p + 32), h->size, h->seq, arg);
    p += cls_size((int)(h->cls & ~SCOPED)) - (h->back - 32);
  }
}

// ------------------------------------------------------------- crash capture
static void describe(char* out, size_t n, void* pc) {
  Dl_info di;
  if (pc && dladdr(pc, &di) && di.dli_sname) {
    int st = 1;
    char buf[1024];
    size_t l = sizeof buf;
    (void)l;
    snprintf(out, n, "%s+0x%lx", di.dli_sname, (long)((char*)pc - (char*)di.dli_saddr));
    (void)st; (void)buf;
  } else
    snprintf(out, n, "%p", pc);
}
// callers of a failed check: frames of the library, innermost first
static void callers(char* out, size_t n, void** fp) {
  size_t l = strlen(out);
  int shown = 0;
  for (int i = 0; i < 40 && fp && shown < 4; i++) {
    if (((uintptr_t)fp & 7) || (uintptr_t)fp < 0x10000) break;
    if ((void**)fp[0] <= fp && fp[0]) { if (i == 0) {} }
    void* ret = fp[1];
    Dl_info di;
    if (ret && dladdr(ret, &di) && di.dli_sname && strstr(di.dli_sname, "9crocoddyl")) {
      int st = 0;
      char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
      const char* nm = d && st == 0 ? d : di.dli_sname;
      char shortn[160];
      size_t k = 0;
      int depth = 0;
      for (const char* q = nm; *q && k + 1 < sizeof shortn; q++) {  // drop template and call arguments
        if (*q == '<') depth++;
        else if (*q == '>') depth--;
        else if (*q == '(' && depth == 0) break;
        else if (depth == 0) shortn[k++] = *q;
      }
      shortn[k] = 0;
      if (l + k + 8 < n) l += (size_t)snprintf(out + l, n - l, "%s%s", shown ? " < " : " in ", shortn);
      shown++;
    }
    void** next = (void**)fp[0];
    if (next <= fp || (char*)next - (char*)fp > (1 << 20)) break;
    fp = next;
  }
}
static void on_signal(int sig, siginfo_t* si, void* uc) {
  void* pc = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
  char where[600];
  describe(where, sizeof where, pc);
  char by[700] = "";
  callers(by, sizeof by, (void**)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RBP]);
  fatal("crash", "signal %d addr %s near zero, at %s%s", sig,
        (uintptr_t)si->si_addr < 65536 ? "is" : "not", where, by);
}
static void on_terminate() {
  std::type_info* t = abi::__cxa_current_exception_type();
  fatal("terminate", "std::terminate called, current exception: %s", t ? t->name() : "none");
}
void install_handlers() {
  static char stk[65536];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = stk;
  ss.ss_size = sizeof stk;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
}
}  // namespace rt

using namespace rt;
extern "C" {
void sim_assert_fail(const char* expr, const char* file, int line) {
  const char* b = strrchr(file, '/');
  char by[700] = "";
  callers(by, sizeof by, (void**)__builtin_frame_address(0));
  rt::fatal("assert", "Eigen precondition violated: %s (%s:%d)%s", expr, b ? b + 1 : file, line, by);
}
void __sanitizer_cov_trace_pc(void) {
  if (g_scope <= 0) return;
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  g_cov[(pc ^ (pc >> 13)) & 0xffff] = 1;
  if (++g_steps == g_step_limit && g_step_limit) {
    char w[600];
    describe(w, sizeof w, (void*)pc);
    rt::fatal("nonterm", "no return within the step budget (%llu basic blocks), in %s", (unsigned long long)g_step_limit, w);
  }
}
// ---- allocator
void* malloc(size_t n) { return alloc(n, 16); }
void free(void* p) { dealloc(p); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = alloc(n, 16);
  if (p) memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return alloc(n, 16);
  if (!n) { dealloc(p); return nullptr; }  // as glibc does
  void* q = alloc(n, 16);
  if (!q) return nullptr;
  size_t o = ((Hdr*)((uintptr_t)p - 32))->size;
  memcpy(q, p, o < n ? o : n);
  dealloc(p);
  return q;
}
void* memalign(size_t al, size_t n) { return alloc(n, al < 16 ? 16 : al); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)((uintptr_t)p - 32))->size : 0; }
// ---- clock
static void tick(int which) {
  g_clock.reads++;
  g_clock.wall_ns += g_clock.tick_ns;
  g_clock.mono_ns += g_clock.tick_ns;
  g_clock.cpu_ns += g_clock.tick_ns;
  if (g_clock.hook) {
    int64_t d = g_clock.hook(which);
    if (which == 0) g_clock.wall_ns += d;
    else if (which == 1) g_clock.mono_ns += d;
    else g_clock.cpu_ns += d;
  }
}
int gettimeofday(struct timeval* tv, void*) {
  tick(0);
  tv->tv_sec = g_clock.wall_ns / 1000000000ll;
  tv->tv_usec = (g_clock.wall_ns % 1000000000ll) / 1000;
  return 0;
}
int clock_gettime(clockid_t id, struct timespec* ts) {
  int64_t v;
  if (id == CLOCK_REALTIME) { tick(0); v = g_clock.wall_ns; }
  else if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) { tick(2); v = g_clock.cpu_ns; }
  else { tick(1); v = g_clock.mono_ns; }
  ts->tv_sec = v / 1000000000ll;
  ts->tv_nsec = v % 1000000000ll;
  return 0;
}
time_t time(time_t* t) {
  tick(0);
  time_t v = g_clock.wall_ns / 1000000000ll;
  if (t) *t = v;
  return v;
}
clock_t clock(void) {
  tick(2);
  return g_clock.cpu_ns / 1000;
}
int getrusage(__rusage_who_t, struct rusage* r) {
  memset(r, 0, sizeof *r);
  tick(2);
  r->ru_utime.tv_sec = g_clock.cpu_ns / 1000000000ll;
  r->ru_utime.tv_usec = (g_clock.cpu_ns % 1000000000ll) / 1000;
  return 0;
}
// ---- pseudo-random numbers of the C library
static uint64_t rand_state = 88172645463325252ull;
int rand(void) {
  rand_state = rand_state * 6364136223846793005ull + 1442695040888963407ull;
  return (int)((rand_state >> 33) & 0x7fffffff);
}
void srand(unsigned s) { rand_state = sim::mix(s); }
long random(void) { return rand(); }
// ---- disk: files opened through fopen while g_disk.active
FILE* fopen64(const char* path, const char* mode);
static FILE* real_fopen(const char* path, const char* mode) {
  static FILE* (*f)(const char*, const char*) = nullptr;
  if (!f) f = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
  return f(path, mode);
}
FILE* fopen(const char* path, const char* mode) {
  if (g_disk.active) {
    g_disk.opens++;
    if (g_disk.fail_open) { g_disk.fired++; errno = EACCES; return nullptr; }
    FILE* f = real_fopen("/dev/null", "w");
    if (f) g_disk.fd = fileno(f);
    return f;
  }
  return real_fopen(path, mode);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
static ssize_t disk_write(const char* p, size_t n) {
  g_disk.writes++;
  uint64_t w = g_disk.writes;
  if (g_disk.eintr_at && w == g_disk.eintr_at) { g_disk.fired++; errno = EINTR; return -1; }
  if (g_disk.fail_write_at && (w == g_disk.fail_write_at || (g_disk.sticky && w > g_disk.fail_write_at))) {
    g_disk.fired++;
    errno = g_disk.fail_errno;
    return -1;
  }
  size_t k = n;
  if (g_disk.short_write_at && w == g_disk.short_write_at && n > 1) { k = n / 2; g_disk.fired++; }
  if (g_disk.len + k > g_disk.capacity) {
    k = g_disk.capacity > g_disk.len ? g_disk.capacity - g_disk.len : 0;
    g_disk.fired++;
    if (k == 0) { errno = ENOSPC; return -1; }
  }
  if (g_disk.len + k > sizeof g_disk.buf) fatal("harness", "disk buffer too small");
  memcpy(g_disk.buf + g_disk.len, p, k);
  g_disk.len += k;
  return (ssize_t)k;
}
ssize_t write(int fd, const void* p, size_t n) {
  if (g_disk.active && fd == g_disk.fd && fd >= 0) return disk_write((const char*)p, n);
  return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (g_disk.active && fd == g_disk.fd && fd >= 0) {
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
      ssize_t k = disk_write((const char*)v[i].iov_base, v[i].iov_len);
      if (k < 0) return t ? t : -1;
      t += k;
      if ((size_t)k < v[i].iov_len) break;
    }
    return t;
  }
  return syscall(SYS_writev, fd, v, c);
}
int fclose(FILE* f) {
  static int (*rf)(FILE*) = nullptr;
  if (!rf) rf = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
  bool mine = g_disk.active && g_disk.fd >= 0 && fileno(f) == g_disk.fd;
  int r = rf(f);
  if (mine) {
    g_disk.closes++;
    g_disk.fd = -1;
    if (g_disk.fail_close) { g_disk.fired++; errno = EIO; return EOF; }
  }
  return r;
}
}
