#include <fstream>
#ifdef SIM_MT
#include "mt/mt.hpp"
#endif
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cinttypes>
#include <cstdlib>
#include <iostream>
#include <set>
#include <sstream>
#include <unordered_set>

#include "common/ctx.hpp"

namespace sim {
Shared* g_shm = nullptr;
Ctx* g_ctx = nullptr;
static std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
Register::Register(const char* id, PropFn fn) { props().push_back({id, fn}); }

long Ctx::knob(const char* name, long drawn, long lo) {
  long v = drawn;
  auto it = opt.knobs.find(name);
  if (it != opt.knobs.end()) v = std::max(lo, std::min(drawn, it->second));
  size_t l = strlen(g_shm->knobs);
  char key[64];
  snprintf(key, sizeof key, "%s=", name);
  const char* f = strstr(g_shm->knobs, key);
  if (!(f && (f == g_shm->knobs || f[-1] == ','))) {
    if (l + 80 < sizeof g_shm->knobs) snprintf(g_shm->knobs + l, sizeof g_shm->knobs - l, "%s%s=%ld:%ld", l ? "," : "", name, v, lo);
  }
  return v;
}
static bool in(const std::vector<uint64_t>& v, uint64_t x) { return std::find(v.begin(), v.end(), x) != v.end(); }
bool Ctx::op() { uint64_t i = nops++; g_shm->nops = nops; return !in(opt.drop_ops, i); }
bool Ctx::fault() { uint64_t i = nfaults++; g_shm->nfaults = nfaults; return !in(opt.drop_faults, i); }
void Ctx::count(const char* name, uint64_t n) {
  for (int i = 0; i < g_shm->ncounters; i++)
    if (!strcmp(g_shm->counters[i].name, name)) { g_shm->counters[i].n += n; return; }
  if (g_shm->ncounters < 160) {
    Counter& c = g_shm->counters[g_shm->ncounters++];
    strncpy(c.name, name, sizeof c.name - 1);
    c.n = n;
  }
}
void Ctx::trace(const char* fmt, ...) {
  if (!opt.trace) return;
  rt::NoLib nl;
  va_list ap;
  va_start(ap, fmt);
  char b[4000];
  int n = vsnprintf(b, sizeof b - 1, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n] = '\n';
  (void)!::write(1, b, (size_t)n + 1);
}
void Ctx::finish(int status) {
  g_shm->status = status;
  g_shm->log_hash = hash;
  g_shm->shape_hash = shape;
  g_shm->steps = rt::g_steps;
#ifdef SIM_MT
  rt::g_scope = 0;
  g_shm->switches = mt::stats().switches;
  if (opt.record_sched) {
    std::string s = "SCHED " + mt::schedule() + "\n";
    for (size_t i = 0; i < s.size();) {
      ssize_t k = ::write(1, s.data() + i, s.size() - i);
      if (k <= 0) break;
      i += (size_t)k;
    }
  }
#endif
  memcpy(g_shm->cov, rt::g_cov, sizeof g_shm->cov);
  _exit(0);
}
void Ctx::violation(const char* cls, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_shm->msg, sizeof g_shm->msg, fmt, ap);
  va_end(ap);
  strncpy(g_shm->cls, cls, sizeof g_shm->cls - 1);
  trace("VIOLATED [%s] %s", cls, g_shm->msg);
  log(hash_bytes(g_shm->cls, strlen(g_shm->cls)));
  finish(ST_VIOLATION);
}
bool Ctx::listed(const std::string& name) {
  static const char* known = getenv("SIM_KNOWN");
  std::string list = std::string(",") + (known ? known : "") + ",";
  return list.find("," + name + ",") != std::string::npos;
}
void Ctx::finding(const char* name, const char* cls, const char* fmt, ...) {
  char b[2500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (listed(name)) {
    count((std::string("known.") + name).c_str());
    trace("known finding %s: %s", name, b);
    return;
  }
  violation(cls, "%s", b);
}
void Ctx::harness(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_shm->msg, sizeof g_shm->msg, fmt, ap);
  va_end(ap);
  strcpy(g_shm->cls, "harness");
  finish(ST_HARNESS);
}
static void fatal_hook(const char* cls, const char* msg) {
  if (!g_ctx) {
    fprintf(stderr, "sim: fatal outside a run: %s: %s\n", cls, msg);
    _exit(9);
  }
  if (!g_ctx->kf_name.empty() && g_ctx->kf_cls == cls && strstr(msg, g_ctx->kf_a.c_str()) && strstr(msg, g_ctx->kf_b.c_str()) && Ctx::listed(g_ctx->kf_name)) {
    g_ctx->count(("known." + g_ctx->kf_name).c_str());
    g_ctx->trace("known finding %s: %s", g_ctx->kf_name.c_str(), msg);
    g_ctx->finish(ST_OK);
  }
  bool h = !strcmp(cls, "harness") || !strcmp(cls, "oom");
  strncpy(g_shm->cls, cls, sizeof g_shm->cls - 1);
  strncpy(g_shm->msg, msg, sizeof g_shm->msg - 1);
  g_ctx->trace("FATAL [%s] %s", cls, msg);
  g_ctx->log(hash_bytes(g_shm->cls, strlen(g_shm->cls)));
  g_ctx->finish(h ? ST_HARNESS : ST_VIOLATION);
}
std::string strf(const char* fmt, ...) {
  char b[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}
std::string hex(double v) { return strf("%.17g", v); }
std::string str(const Eigen::VectorXd& v) {
  std::string s = "[";
  for (Eigen::Index i = 0; i < v.size(); i++) s += strf("%s%.6g", i ? " " : "", v[i]);
  return s + "]";
}
bool same(const std::vector<Eigen::VectorXd>& a, const std::vector<Eigen::VectorXd>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (a[i].size() != b[i].size() || (a[i].size() && memcmp(a[i].data(), b[i].data(), (size_t)a[i].size() * 8))) return false;
  return true;
}

// ---------------------------------------------------------------- running
static void run_child(PropFn fn, uint64_t seed, const Options& opt) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  rt::install_handlers();
  rt::enter_run();
  static char buf[sizeof(Ctx)] __attribute__((aligned(64)));
  g_ctx = new (buf) Ctx(seed, opt);
  rt::g_fatal_hook = fatal_hook;
  try {
    fn(*g_ctx);
  } catch (const std::exception& e) {
    rt::g_scope = 0;
    g_ctx->violation("unexpected-exception", "a call that must succeed threw: %s", e.what());
  } catch (...) {
    rt::g_scope = 0;
    g_ctx->violation("unexpected-exception", "a call that must succeed threw an unknown exception");
  }
  g_ctx->finish(ST_OK);
}
// runs in a forked process; result in g_shm
static void run_one(PropFn fn, uint64_t seed, const Options& opt, int wall_s) {
  memset((void*)g_shm, 0, offsetof(Shared, cov));
  fflush(stdout);
  int pfd[2];
  if (pipe(pfd)) { perror("pipe"); _exit(9); }
  pid_t p = fork();
  if (p < 0) { perror("fork"); _exit(9); }
  if (p == 0) { close(pfd[0]); run_child(fn, seed, opt); }
  close(pfd[1]);
  struct pollfd f = {pfd[0], POLLIN | POLLHUP, 0};
  int r = poll(&f, 1, wall_s * 1000);
  close(pfd[0]);
  int st = 0;
  if (r == 0) {
    kill(p, SIGKILL);
    waitpid(p, &st, 0);
    g_shm->status = ST_VIOLATION;
    strcpy(g_shm->cls, "hang");
    snprintf(g_shm->msg, sizeof g_shm->msg, "run did not end within %d s of real time", wall_s);
    g_shm->log_hash = 0xdead;
    return;
  }
  waitpid(p, &st, 0);
  if (g_shm->status == ST_NONE) {
    g_shm->status = ST_VIOLATION;
    strcpy(g_shm->cls, "died");
    snprintf(g_shm->msg, sizeof g_shm->msg, "process ended unexpectedly: %s %d", WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    g_shm->log_hash = 0xdead1;
  }
}
}  // namespace sim

using namespace sim;
static std::vector<uint64_t> list(const char* s) {
  std::vector<uint64_t> v;
  std::stringstream ss(s);
  std::string t;
  while (std::getline(ss, t, ',')) {
    if (t.empty()) continue;
    size_t d = t.find('-');
    uint64_t a = strtoull(t.c_str(), 0, 10), b = d == std::string::npos ? a : strtoull(t.c_str() + d + 1, 0, 10);
    for (; a <= b; a++) v.push_back(a);
  }
  return v;
}
int main(int argc, char** argv) {
  // address-space randomisation off: addresses are part of the environment
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  if (argc < 4) { fprintf(stderr, "usage: sim run PROP BASE START STRIDE COUNT SECONDS | sim replay PROP SEED [k=v..]\n"); return 9; }
  g_shm = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string cmd = argv[1], id = argv[2];
  PropFn fn = nullptr;
  for (auto& p : props()) if (id == p.id) fn = p.fn;
  if (!fn) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 9; }
  int wall = getenv("SIM_WALL") ? atoi(getenv("SIM_WALL")) : 60;
  if (cmd == "replay") {
    Options o;
    uint64_t seed = strtoull(argv[3], 0, 10);
    for (int i = 4; i < argc; i++) {
      std::string a = argv[i];
      size_t e = a.find('=');
      std::string k = a.substr(0, e), v = e == std::string::npos ? "" : a.substr(e + 1);
      if (k == "dropops") o.drop_ops = list(v.c_str());
      else if (k == "dropfaults") o.drop_faults = list(v.c_str());
      else if (k == "trace") o.trace = v != "0";
      else if (k == "sched" && !v.empty() && v[0] == '@') {
        std::ifstream f(v.substr(1));
        std::getline(f, o.sched);
      } else if (k == "sched") o.sched = v;
      else if (k == "recsched") o.record_sched = true;
      else if (k.compare(0, 5, "knob:") == 0) o.knobs[k.substr(5)] = atol(v.c_str());
    }
    run_one(fn, seed, o, wall);
    for (char* q = g_shm->msg; *q; q++) if (*q == '\n') *q = ' ';
    printf("R %d %016" PRIx64 " %" PRIu64 " %" PRIu64 " [%s] %s\n", g_shm->status - 1, g_shm->log_hash, g_shm->nops, g_shm->nfaults, g_shm->cls, g_shm->msg);
    printf("KNOBS %s\n", g_shm->knobs);
    return g_shm->status == ST_OK ? 0 : g_shm->status == ST_VIOLATION ? 1 : 2;
  }
  // run PROP BASE START STRIDE COUNT SECONDS
  uint64_t base = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10);
  double secs = atof(argv[7]);
  long maxv = getenv("SIM_MAXV") ? atol(getenv("SIM_MAXV")) : 3;
  Options o;
  std::map<std::string, std::pair<uint64_t, uint64_t>> tot;
  std::unordered_set<uint64_t> hashes, shapes;
  std::vector<unsigned char> cov(1 << 16);
  uint64_t runs = 0, steps = 0, simns = 0, events = 0, nops = 0, nfaults = 0, switches = 0;
  struct timespec t0, t1;
  auto now = [](struct timespec* t) { syscall(228 /*SYS_clock_gettime*/, 1, t); };
  now(&t0);
  long nv = 0;
  for (uint64_t i = 0; i < count; i++) {
    now(&t1);
    if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
    uint64_t idx = start + i * stride;
    uint64_t seed = mix(mix(base, 0x51), idx);
    run_one(fn, seed, o, wall);
    runs++;
    hashes.insert(g_shm->log_hash);
    shapes.insert(g_shm->shape_hash);
    for (int c = 0; c < g_shm->ncounters; c++) {
      auto& e = tot[g_shm->counters[c].name];
      e.first += g_shm->counters[c].n;
      e.second++;
    }
    for (size_t c = 0; c < cov.size(); c++) cov[c] |= g_shm->cov[c];
    steps += g_shm->steps; simns += g_shm->sim_ns; events += g_shm->events;
    nops += g_shm->nops; nfaults += g_shm->nfaults; switches += g_shm->switches;
    if (i < 40) printf("H %" PRIu64 " %" PRIu64 " %016" PRIx64 "\n", idx, seed, g_shm->log_hash);
    if (g_shm->status != ST_OK) {
      std::string m = g_shm->msg;
      for (auto& ch : m) if (ch == '\n') ch = ' ';
      printf("%s %" PRIu64 " %" PRIu64 " %016" PRIx64 " [%s] %s\n", g_shm->status == ST_VIOLATION ? "V" : "X", idx, seed, g_shm->log_hash, g_shm->cls, m.c_str());
      fflush(stdout);
      if (++nv >= maxv) break;
    }
  }
  now(&t1);
  uint64_t ncov = 0;
  for (auto c : cov) ncov += c;
  printf("S runs=%" PRIu64 " hashes=%zu shapes=%zu steps=%" PRIu64 " simns=%" PRIu64 " events=%" PRIu64 " ops=%" PRIu64 " faults=%" PRIu64 " switches=%" PRIu64 " cov=%" PRIu64 " wall=%.3f\n",
         runs, hashes.size(), shapes.size(), steps, simns, events, nops, nfaults, switches, ncov, (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9);
  for (auto& e : tot) printf("C %s %" PRIu64 " %" PRIu64 "\n", e.first.c_str(), e.second.first, e.second.second);
  for (auto h : shapes) printf("D %016" PRIx64 "\n", h);
  // bitmap of covered blocks, hex, for union over workers
  std::string b;
  for (size_t i = 0; i < cov.size(); i += 4) b += "0123456789abcdef"[cov[i] | cov[i + 1] << 1 | cov[i + 2] << 2 | cov[i + 3] << 3];
  printf("B %s\n", b.c_str());
  return 0;
}
