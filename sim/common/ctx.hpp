// One simulated run: plan masks, knobs, log, counters, violations.
#ifndef SIM_CTX_HPP
#define SIM_CTX_HPP
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

#include <Eigen/Core>
#include "common/rng.hpp"
#include "common/rt.hpp"

namespace sim {

enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_HARNESS = 3 };

struct Counter { char name[44]; uint64_t n; };
struct Shared {  // lives in a shared mapping, written by the forked run
  int status;
  char cls[48];
  char msg[3000];
  uint64_t log_hash, shape_hash, steps, sim_ns, events, switches;
  uint64_t nops, nfaults;
  char knobs[1500];
  Counter counters[160];
  int ncounters;
  unsigned char cov[1 << 16];
};
extern Shared* g_shm;

struct Options {   // from the replay file
  std::vector<uint64_t> drop_ops, drop_faults;
  std::map<std::string, long> knobs;
  bool trace = false;
  std::string sched;     // explicit schedule (mt)
  bool record_sched = false;
};

class Ctx {
 public:
  uint64_t seed;
  Rng rng;
  const Options& opt;
  uint64_t hash = 0x1234567, shape = 77;
  uint64_t nops = 0, nfaults = 0;
  bool failed = false;
  Ctx(uint64_t s, const Options& o) : seed(s), rng(s), opt(o) {}

  // integer drawn by the generator that the minimiser may lower (>= lo)
  long knob(const char* name, long drawn, long lo);
  // declares operation/fault number i of the plan; false if masked out
  bool op();
  bool fault();
  void log(uint64_t v) { hash = mix(hash, v); g_shm->events++; }
  void logd(double v) { uint64_t u; memcpy(&u, &v, 8); log(u); }
  void logm(const double* p, size_t n) { log(hash_bytes(p, n * 8)); }
  template <class M> void logv(const M& m) { logm(m.data(), (size_t)m.size()); }
  void logs(const std::string& s) { log(hash_bytes(s.data(), s.size())); }
  // shape: coarse description of what happened (distinctness measure)
  void mark(uint64_t v) { shape = mix(shape, v); }
  void count(const char* name, uint64_t n = 1);
  void trace(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  bool tracing() const { return opt.trace; }
  // records the first violation and ends the run
  [[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  // violation unless `name` is a listed known finding: then counts and returns
  // a listed finding that ends the run: a fatal of this class whose message
  // contains both texts is counted as the finding, if `name` is listed
  std::string kf_name, kf_cls, kf_a, kf_b;
  void expect_fatal(const char* name, const char* cls, const char* a, const char* b) { kf_name = name; kf_cls = cls; kf_a = a; kf_b = b; }
  static bool listed(const std::string& name);
  void finding(const char* name, const char* cls, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
  [[noreturn]] void harness(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void finish(int status);
};
extern Ctx* g_ctx;

typedef void (*PropFn)(Ctx&);
struct Prop { const char* id; PropFn fn; };
struct Register { Register(const char* id, PropFn fn); };

#define SIM_CHECK(ctx, cond, cls, ...) \
  do { if (!(cond)) (ctx).violation(cls, __VA_ARGS__); } while (0)

std::string hex(double v);
std::string str(const Eigen::VectorXd& v);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline uint64_t hashm(const Eigen::MatrixXd& m) { return hash_bytes(m.data(), (size_t)m.size() * 8, 99 + m.rows() * 131 + m.cols()); }
inline bool same(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) {
  return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || memcmp(a.data(), b.data(), (size_t)a.size() * 8) == 0);
}
inline bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
bool same(const std::vector<Eigen::VectorXd>& a, const std::vector<Eigen::VectorXd>& b);
}  // namespace sim
#endif
