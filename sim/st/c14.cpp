// C14: the stopwatch against a model of its accounting, and the profiler
// during real solves.
#include <algorithm>
#include <cmath>
#include <iostream>
#include <map>
#include <sstream>

#include "common/solve.hpp"
#include "crocoddyl/core/utils/stop-watch.hpp"
#include "crocoddyl/core/utils/timer.hpp"
using namespace sim;
namespace {
typedef long double LD;
struct Discard : std::streambuf {
  int overflow(int ch) override { return ch; }
  std::streamsize xsputn(const char*, std::streamsize k) override { return k; }
};
// accepts n bytes, then fails (silently, or with an exception)
struct Failing : std::streambuf {
  std::string got;
  size_t room;
  bool raise;
  Failing(size_t n, bool r) : room(n), raise(r) {}
  int overflow(int ch) override {
    if (got.size() >= room) {
      if (raise) throw std::runtime_error("stream");
      return EOF;
    }
    got.push_back((char)ch);
    return ch;
  }
};
struct Rec {
  bool started = false, paused = false;
  int64_t start = 0;  // microseconds
  LD total = 0, min = 0, max = 0, last = 0, part = 0;
  int stops = 0;
  bool operator==(const Rec& o) const { return started == o.started && stops == o.stops && total == o.total; }
};
struct Model {
  bool active = true, prof = false;
  int mode = 0;
  std::map<std::string, Rec> recs;
  static int64_t now(int mode) { return mode == cr::CPU_TIME ? rt::g_clock.cpu_ns / 1000 : rt::g_clock.wall_ns / 1000; }
  LD lapse(const Rec& r) const { return (LD)(now(mode) - r.start) / 1e6L; }
  void start(const std::string& n) {
    Rec& r = recs[n];
    r.started = true;
    r.start = now(mode);
    r.paused = false;
  }
  void stop(const std::string& n) {
    Rec& r = recs[n];
    if (!r.started) return;
    r.stops++;
    LD l = 0;
    if (r.paused) r.started = false;
    else l = lapse(r);
    r.total += l;
    l += r.part;
    r.part = 0;
    r.last = l;
    if (r.stops == 1 || l > r.max) r.max = l;
    if (r.stops == 1 || l < r.min) r.min = l;
  }
  void pause(const std::string& n) {
    Rec& r = recs[n];
    if (!r.started || r.paused) return;
    LD l = lapse(r);
    r.part += l;
    r.last = r.part;
    r.total += l;
    r.paused = true;
  }
};
bool near(LD a, LD b, LD tol) { return std::fabs((double)(a - b)) <= (double)(tol + 1e-15L * std::fabs((double)b)); }
const LD TOL = 2e-9L;

struct Watch {
  std::unique_ptr<cr::Stopwatch> w;
  Model m;
  bool global = false;
  cr::Stopwatch& s() { return global ? cr::getProfiler() : *w; }
};
struct Held { cr::Stopwatch::Watcher h; int watch; std::string name; };

enum Got { OK, MISSING, NOMEM, IO, OTHER };
template <class F> Got attempt(std::string& what, F&& f) {
  try {
    rt::Lib lib;
    f();
    return OK;
  } catch (const cr::StopwatchException& e) {
    return MISSING;
  } catch (const std::bad_alloc&) {
    return NOMEM;
  } catch (const std::ios_base::failure& e) {
    return IO;
  } catch (const std::exception& e) {
    what = e.what();
    return what == "stream" ? IO : OTHER;
  }
}
void compare(Ctx& c, Watch& W, const std::vector<std::string>& names, const char* after) {
  rt::NoLib nl;
  for (auto& n : names) {
    auto it = W.m.recs.find(n);
    bool has = it != W.m.recs.end();
    SIM_CHECK(c, W.s().performance_exists(n) == has, "existence", "after %s: '%.40s' %s", after, n.c_str(), has ? "is missing" : "exists although it was never started");
    LD v[5] = {0, 0, 0, 0, 0};
    bool threw = false;
    try {
      v[0] = W.s().get_total_time(n);
      v[1] = W.s().get_last_time(n);
      v[2] = W.s().get_min_time(n);
      v[3] = W.s().get_max_time(n);
      v[4] = W.s().get_average_time(n);
    } catch (const cr::StopwatchException&) {
      threw = true;
    }
    SIM_CHECK(c, threw == !has, "existence", "after %s: the getters of '%.40s' %s", after, n.c_str(), threw ? "throw" : "do not throw");
    if (!has) continue;
    const Rec& r = it->second;
    SIM_CHECK(c, near(v[0], r.total, TOL * (1 + r.stops)), "total", "after %s: total of '%.40s' is %.9Lf s, expected %.9Lf", after, n.c_str(), v[0], r.total);
    SIM_CHECK(c, near(v[1], r.last, TOL), "last", "after %s: last time of '%.40s' is %.9Lf s, expected %.9Lf", after, n.c_str(), v[1], r.last);
    if (r.stops > 0) {
      SIM_CHECK(c, near(v[2], r.min, TOL), "min", "after %s: minimum of '%.40s' is %.9Lf s, expected %.9Lf", after, n.c_str(), v[2], r.min);
      SIM_CHECK(c, near(v[3], r.max, TOL), "max", "after %s: maximum of '%.40s' is %.9Lf s, expected %.9Lf", after, n.c_str(), v[3], r.max);
      SIM_CHECK(c, near(v[4], r.total / r.stops, TOL * (1 + r.stops)), "average", "after %s: average of '%.40s' is %.9Lf s, expected %.9Lf over %d stops", after, n.c_str(), v[4], r.total / r.stops, r.stops);
    }
  }
}
// one line of a report
std::string check_line(const std::string& line, const std::string& name, const Rec& r, int prec) {
  if (line.compare(0, name.size(), name) != 0) return "line '" + line + "' is not about '" + name + "'";
  std::istringstream is(line.substr(name.size()));
  std::vector<std::string> f;
  std::string w;
  while (is >> w) f.push_back(w);
  if (f.size() != 6) return strf("%zu columns in '%s'", f.size(), line.c_str());
  LD u = 0.51L * powl(10.L, -(LD)prec) + 1e3L * TOL * (1 + r.stops);
  auto val = [&](int i) { return strtold(f[(size_t)i].c_str(), nullptr); };
  if (r.stops > 0) {
    if (!near(val(0), r.min * 1e3L, u)) return strf("min is %s ms, expected %.12Lf", f[0].c_str(), r.min * 1e3L);
    if (!near(val(1), r.total * 1e3L / r.stops, u)) return strf("average is %s ms, expected %.12Lf", f[1].c_str(), r.total * 1e3L / r.stops);
    if (!near(val(2), r.max * 1e3L, u)) return strf("max is %s ms, expected %.12Lf", f[2].c_str(), r.max * 1e3L);
  }
  if (!near(val(3), r.last * 1e3L, u)) return strf("last is %s ms, expected %.12Lf", f[3].c_str(), r.last * 1e3L);
  if (f[4] != std::to_string(r.stops)) return strf("samples are %s, expected %d", f[4].c_str(), r.stops);
  if (!near(val(5), r.total * 1e3L, u)) return strf("total is %s ms, expected %.12Lf", f[5].c_str(), r.total * 1e3L);
  return "";
}
void part_a(Ctx& c) {
  Rng r = c.rng.fork(1);
  std::vector<std::string> names = {"a", "b b", "", "Solver::solve", std::string(80, 'n')};
  names.resize((size_t)r.range(1, 5));
  std::vector<std::string> all = names;
  all.push_back("never");
  int nw = r.range(1, 2);
  std::vector<Watch> W((size_t)nw);
  for (int i = 0; i < nw; i++) {
    int mode = r.range(0, 5) == 0 ? 0 : r.range(1, 2);
    W[(size_t)i].m.mode = mode;
    rt::Lib lib;
    W[(size_t)i].w.reset(new cr::Stopwatch((cr::StopwatchMode)mode));
  }
  std::vector<Held> held;
  cr::Timer timer;
  int64_t timer_start = rt::g_clock.mono_ns;
  long n = c.knob("ops", r.range(3, 60), 1);
  for (long k = 0; k < n; k++) {
    Rng o = r.fork(1000 + (uint64_t)k);
    // the clock first
    int64_t d = 0;
    bool jump = false;
    switch (o.range(0, 7)) {
      case 0: d = 0; break;
      case 1: d = (int64_t)o.below(1000); break;                       // below its resolution
      case 2: d = (int64_t)o.below(1000000); break;
      case 3: d = (int64_t)o.below(10000000000ull); break;
      case 4: d = (int64_t)o.below(4000000000000000ull); jump = true; break;  // 46 days
      case 5: d = -(int64_t)o.below(20000000000ull); jump = true; break;
      default: d = 1000 * (int64_t)o.below(3000000); break;
    }
    bool wj = jump && c.fault();
    int op = o.range(0, 24), wi = o.range(0, nw - 1);
    std::string name = o.chance(0.08) ? std::string("never") : names[o.below(names.size())];
    int prec = o.range(0, 9);
    int hn = (int)o.below(4);
    bool oom = o.chance(0.12) && c.fault();
    uint64_t oom_at = 1 + o.below(2);
    bool io = o.chance(0.3) && c.fault();
    size_t room = (size_t)o.below(400);
    bool raise = o.chance(0.5), mask = o.chance(0.5);
    int newmode = o.range(0, 2);
    if (!c.op()) continue;
    if (!jump || wj) {
      auto add = [&](int64_t& v) { v = std::max<int64_t>(v + d, 2000000); };
      add(rt::g_clock.wall_ns);
      add(rt::g_clock.cpu_ns);
      add(rt::g_clock.mono_ns);
      if (jump) c.count(d < 0 ? "fault.clock_back" : "fault.clock_ahead");
    }
    Watch& w = W[(size_t)wi];
    Model& m = w.m;
    std::string what;
    bool has = m.recs.count(name) > 0;
    char after[160];
    static const char* ON[] = {"start", "start", "start", "start", "stop", "stop", "stop", "stop", "pause", "pause", "reset", "reset_all", "report", "report_all", "get_time_so_far", "turn_off", "turn_on", "enable", "disable", "watcher", "watcher.start", "watcher.stop", "set_mode", "timer", "timer.reset"};
    snprintf(after, sizeof after, "%s(%.20s) on watch %d in mode %d", ON[op], name.c_str(), wi, m.mode);
    c.trace("%s, clock %+.6f s%s%s", after, (double)d * 1e-9, oom ? " OOM" : "", io ? " failing stream" : "");
    c.mark((uint64_t)op * 4 + oom + 2 * io);
    auto bad = [&](Got g) { c.violation("exception", "%s: got %s", after, g == OK ? "no exception" : g == MISSING ? "StopwatchException" : g == NOMEM ? "bad_alloc" : what.c_str()); };
    auto expect = [&](Got g, bool miss) { if (g != (miss ? MISSING : OK)) bad(g); };
    uint64_t f0 = rt::alloc_failures();
    auto arm = [&]() { if (oom) rt::arm_alloc_fail(oom_at, false); };
    auto disarm = [&]() { rt::disarm_alloc_fail(); if (rt::alloc_failures() > f0) c.count("fault.alloc"); };
    switch (op) {
      case 0: case 1: case 2: case 3: {
        arm();
        Got g = attempt(what, [&] { w.s().start(name); });
        disarm();
        bool hit = rt::alloc_failures() > f0;
        if (g == NOMEM && hit) {
          // the name may be known now, but nothing is measured
          rt::NoLib nl;
          if (!has && w.s().performance_exists(name)) m.recs[name];
          break;
        }
        if (m.active && m.mode == 0) {
          expect(g, true);
          if (!has && w.s().performance_exists(name)) m.recs[name];
        } else {
          expect(g, false);
          if (m.active) m.start(name);
        }
        break;
      }
      case 4: case 5: case 6: case 7: {
        Got g = attempt(what, [&] { w.s().stop(name); });
        expect(g, m.active && (m.mode == 0 || !has));
        if (g == OK && m.active) m.stop(name);
        break;
      }
      case 8: case 9: {
        Got g = attempt(what, [&] { w.s().pause(name); });
        expect(g, m.active && (m.mode == 0 || !has));
        if (g == OK && m.active) m.pause(name);
        break;
      }
      case 10: {
        Got g = attempt(what, [&] { w.s().reset(name); });
        expect(g, m.active && !has);
        if (g == OK && m.active) m.recs[name] = Rec();
        break;
      }
      case 11: {
        Got g = attempt(what, [&] { w.s().reset_all(); });
        expect(g, false);
        if (m.active) for (auto& e : m.recs) e.second = Rec();
        break;
      }
      case 12: {
        if (io) {
          Failing fb(room, raise);
          std::ostream os(&fb);
          if (mask) os.exceptions(std::ios::badbit);
          Got g = attempt(what, [&] { w.s().report(name, prec, os); });
          if (g != OK && g != IO && !(g == MISSING && m.active && !has)) bad(g);
          std::ostringstream full;
          try { w.s().report(name, prec, full); } catch (...) {}
          SIM_CHECK(c, full.str().compare(0, fb.got.size(), fb.got) == 0, "report", "%s: what reached a failing stream is no prefix of the report", after);
          if (os.bad() || os.fail()) c.count("fault.stream");
          break;
        }
        std::ostringstream os;
        Got g = attempt(what, [&] { w.s().report(name, prec, os); });
        expect(g, m.active && !has);
        if (!m.active || g != OK) { SIM_CHECK(c, os.str().empty(), "report", "%s: wrote although it must not", after); break; }
        std::string e = check_line(os.str(), name, m.recs[name], prec);
        SIM_CHECK(c, e.empty(), "report", "%s: %s", after, e.c_str());
        break;
      }
      case 13: {
        if (io) {
          Failing fb(room * 3, raise);
          std::ostream os(&fb);
          if (mask) os.exceptions(std::ios::badbit);
          Got g = attempt(what, [&] { w.s().report_all(prec, os); });
          if (g != OK && g != IO) bad(g);
          std::ostringstream full;
          w.s().report_all(prec, full);
          SIM_CHECK(c, full.str().compare(0, fb.got.size(), fb.got) == 0, "report", "%s: what reached a failing stream is no prefix of the report", after);
          if (os.bad() || os.fail()) c.count("fault.stream");
          break;
        }
        std::ostringstream os;
        Got g = attempt(what, [&] { w.s().report_all(prec, os); });
        expect(g, false);
        if (!m.active) { SIM_CHECK(c, os.str().empty(), "report", "%s: wrote although it is off", after); break; }
        std::istringstream is(os.str());
        std::string line;
        std::getline(is, line);
        std::getline(is, line);
        SIM_CHECK(c, line.find("PROFILING RESULTS") != std::string::npos, "report", "%s: no header", after);
        for (auto& e : m.recs) {
          if (e.second.stops == 0) continue;
          SIM_CHECK(c, (bool)std::getline(is, line), "report", "%s: '%.40s' is missing", after, e.first.c_str());
          std::string x = check_line(line, e.first, e.second, prec);
          SIM_CHECK(c, x.empty(), "report", "%s: %s", after, x.c_str());
        }
        SIM_CHECK(c, !std::getline(is, line), "report", "%s: surplus line '%s'", after, line.c_str());
        break;
      }
      case 14: {
        LD v = 0;
        Got g = attempt(what, [&] { v = w.s().get_time_so_far(name); });
        expect(g, m.mode == 0 || !has);
        if (g == OK && m.recs[name].started) SIM_CHECK(c, near(v, m.lapse(m.recs[name]), TOL), "so-far", "%s: %.9Lf s, expected %.9Lf", after, v, m.lapse(m.recs[name]));
        break;
      }
      case 15: if (o.chance(0.5)) { attempt(what, [&] { w.s().turn_off(); }); m.active = false; } break;
      case 16: attempt(what, [&] { w.s().turn_on(); }); m.active = true; break;
      case 17: attempt(what, [&] { w.s().enable_profiler(); }); m.prof = true; SIM_CHECK(c, w.s().profiler_status(), "status", "the profiler is not enabled"); break;
      case 18: if (o.chance(0.5)) { attempt(what, [&] { w.s().disable_profiler(); }); m.prof = false; SIM_CHECK(c, !w.s().profiler_status(), "status", "the profiler is not disabled"); } break;
      case 19: {
        arm();
        Got g = attempt(what, [&] {
          cr::Stopwatch::Watcher h = w.s().watcher(name);
          rt::NoLib nl;
          held.push_back(Held{h, wi, name});
        });
        disarm();
        if (g == NOMEM && rt::alloc_failures() > f0) {
          if (!has && w.s().performance_exists(name)) m.recs[name];
          break;
        }
        expect(g, false);
        if (m.active) m.recs[name];
        break;
      }
      case 20: case 21: {
        if (held.empty()) break;
        Held& h = held[(size_t)hn % held.size()];
        Watch& hw = W[(size_t)h.watch];
        Model& hm = hw.m;
        bool on = hm.active && hm.prof, had = hm.recs.count(h.name) > 0;
        if (op == 20) {
          arm();
          Got g = attempt(what, [&] { h.h.start(); });
          disarm();
          if (g == NOMEM && rt::alloc_failures() > f0) {
            if (!had && hw.s().performance_exists(h.name)) hm.recs[h.name];
            break;
          }
          if (on && hm.mode == 0) {
            expect(g, true);
            if (!had && hw.s().performance_exists(h.name)) hm.recs[h.name];
          } else {
            expect(g, false);
            if (on) hm.start(h.name);
          }
        } else {
          Got g = attempt(what, [&] { h.h.stop(); });
          if (on && hm.mode == 0) { if (had) expect(g, true); else if (g != OK && g != MISSING) bad(g); }
          else {
            expect(g, false);
            if (on && had) hm.stop(h.name);
          }
        }
        compare(c, hw, all, after);
        break;
      }
      case 22: {
        bool idle = true;
        for (auto& e : m.recs) idle = idle && !e.second.started && e.second.part == 0;
        if (!idle) break;   // lapses of two units cannot be added
        attempt(what, [&] { w.s().set_mode((cr::StopwatchMode)newmode); });
        m.mode = newmode;
        break;
      }
      case 23: {
        double ms, us;
        { rt::Lib lib; ms = timer.get_duration(); us = timer.get_us_duration(); }
        double ex = (double)(rt::g_clock.mono_ns - timer_start);
        SIM_CHECK(c, std::fabs(us - ex * 1e-3) <= 2e-3 + 1e-12 * std::fabs(ex), "timer", "Timer shows %.6f us after %.6f", us, ex * 1e-3);
        SIM_CHECK(c, std::fabs(ms - ex * 1e-6) <= 2e-6 + 1e-12 * std::fabs(ex), "timer", "Timer shows %.9f ms after %.9f", ms, ex * 1e-6);
        break;
      }
      case 24: { rt::Lib lib; timer.reset(); timer_start = rt::g_clock.mono_ns; break; }
    }
    for (auto& x : W) {
      compare(c, x, all, after);
      for (auto& e : x.m.recs) c.log((uint64_t)e.second.stops);
    }
    c.count(std::string("op.").append(ON[op]).c_str());
  }
  rt::Lib lib;
  for (auto& x : W) x.w.reset();
}
// ---- the profiler during solves
struct Peek : cr::Stopwatch {
  // names and numbers of samples, through the report
  static std::map<std::string, std::pair<int, LD>> read(cr::Stopwatch& s) {
    std::map<std::string, std::pair<int, LD>> out;
    std::ostringstream os;
    s.report_all(12, os);
    std::istringstream is(os.str());
    std::string line;
    std::getline(is, line);
    std::getline(is, line);
    while (std::getline(is, line)) {
      std::vector<std::string> f;
      std::istringstream ls(line);
      std::string w;
      while (ls >> w) f.push_back(w);
      if (f.size() < 7) continue;
      size_t b = f.size() - 6;
      std::string name = f[0];
      for (size_t i = 1; i < b; i++) name += " " + f[i];
      out[name] = {atoi(f[b + 4].c_str()), s.get_total_time(name)};
    }
    return out;
  }
};
struct Count : Monitor {
  uint64_t failed = 0;
  void dir_failed(cr::SolverAbstract&, bool) override { failed++; }
  void try_failed(cr::SolverAbstract&, double) override { failed++; }
};
int64_t step_ns = 1000;
int64_t g_forward(int) { return step_ns; }
void part_b(Ctx& c) {
  Setup s;
  gen_setup(c, s, false);
  Rng r = c.rng.fork(9);
  cr::Stopwatch& P = cr::getProfiler();
  P.disable_profiler();
  P.reset_all();
  Count mon;
  FaultCtl ctl;
  ProblemPtr pr;
  SolverPtr sol;
  { rt::Lib lib; pr = make_problem(s.spec, &ctl); sol = make_solver(s.kind, pr, &mon); }
  apply_opts(*sol, s.kind, s.opts);
  rt::g_clock.hook = g_forward;
  int n = r.range(1, 4);
  auto before = Peek::read(P);
  size_t T = s.spec.running.size();
  for (int k = 0; k < n; k++) {
    Rng o = r.fork(1000 + (uint64_t)k);
    int how = o.range(0, 4);   // 0 off, 1-2 on, 3 toggled by a callback, 4 failing models
    bool toggles = how == 3 && c.fault(), first = o.chance(0.5);
    FaultGen fg;
    fg.kinds = kAllKinds;
    fg.max = how == 4 ? 3 : 0;
    fg.range = (uint64_t)std::max<size_t>(8, (T + 1) * 10);
    ctl.reset();
    gen_faults(c, o, ctl, fg, (int)T);
    step_ns = 1000 * (1 + (int64_t)o.below(100000));
    if (!c.op()) continue;
    if (how == 0 || (toggles && !first)) P.disable_profiler(); else P.enable_profiler();
    mon.failed = 0;
    uint64_t reads = rt::g_clock.reads, wall = (uint64_t)rt::g_clock.wall_ns;
    size_t calls = 0;
    SolveOut out = run_solve(*sol, s.warm, s.opts, [&](cr::SolverAbstract&) {
      if (toggles) { calls++; if ((calls % 2 == 1) == first) P.disable_profiler(); else P.enable_profiler(); }
    });
    P.disable_profiler();
    reads = rt::g_clock.reads - reads;
    LD elapsed = (LD)((uint64_t)rt::g_clock.wall_ns - wall) * 1e-9L;
    auto after = Peek::read(P);
    for (auto& e : before) SIM_CHECK(c, after.count(e.first) && after[e.first].first >= e.second.first, "lost", "%s: the samples of %s were lost in a solve", solver_name(s.kind), e.first.c_str());
    if (ctl.fired == 0 && how != 4) SIM_CHECK(c, out.outcome < R_STD, "profiled-exception", "%s: a solve without faults threw %s", solver_name(s.kind), out.what.c_str());
    if (how == 0) {
      SIM_CHECK(c, reads == 0, "disabled", "%s read the clock %llu times with the profiler off", solver_name(s.kind), (unsigned long long)reads);
      for (auto& e : after) SIM_CHECK(c, before.count(e.first) && before[e.first] == e.second, "disabled", "%s: %s changed with the profiler off", solver_name(s.kind), e.first.c_str());
      c.count("profile.off");
    } else if (toggles) {
      c.count("fault.toggled");
    } else if (ctl.fired == 0 && mon.failed == 0 && out.outcome < R_STD) {
      uint64_t stops = 0;
      int solves = 0;
      for (auto& e : after) {
        auto b = before.count(e.first) ? before[e.first] : std::pair<int, LD>(0, 0);
        int d = e.second.first - b.first;
        LD t = e.second.second - b.second;
        stops += (uint64_t)d;
        if (!d) continue;
        // a timer is no recursion: what it shows is at most what passed, and
        // every sample spans at least one reading of the clock
        SIM_CHECK(c, t <= elapsed + 1e-6L, "too-long", "%s: %s shows %.9Lf s more after a solve of %.9Lf s", solver_name(s.kind), e.first.c_str(), t, elapsed);
        SIM_CHECK(c, t >= 1e-9L * step_ns * d - 1e-6L, "too-short", "%s: %s shows %.9Lf s for %d samples of at least %.9f s", solver_name(s.kind), e.first.c_str(), t, d, 1e-9 * (double)step_ns);
        if (e.first.size() > 7 && e.first.compare(e.first.size() - 7, 7, "::solve") == 0) {
          solves += d;
          LD last = P.get_last_time(e.first);
          SIM_CHECK(c, last <= elapsed + 1e-6L && (reads < 4 || last > 0), "solve-time", "%s: %s shows %.9Lf s for a solve of %.9Lf s", solver_name(s.kind), e.first.c_str(), last, elapsed);
        }
        if (e.first == "ShootingProblem::calcDiff")
          SIM_CHECK(c, (uint64_t)d * (T + 1) == ctl.calls[1], "samples", "%s: %d samples of ShootingProblem::calcDiff, but %llu derivatives of %zu nodes", solver_name(s.kind), d, (unsigned long long)ctl.calls[1], T + 1);
      }
      SIM_CHECK(c, solves <= 1, "samples", "%s: %d samples of one solve", solver_name(s.kind), solves);
      SIM_CHECK(c, reads == 2 * stops, "unstopped", "%s: the clock was read %llu times, but only %llu timers were stopped", solver_name(s.kind), (unsigned long long)reads, (unsigned long long)stops);
      c.count("profile.on");
    } else {
      c.count("profile.failed");
    }
    for (auto& f : {ctl.fired}) if (f) c.count("fault.model", f);
    c.mark((uint64_t)how * 8 + (uint64_t)out.outcome);
    c.log(reads);
    log_out(c, out);
    before = after;
  }
  rt::g_clock.hook = nullptr;
  P.reset_all();
  c.count((std::string("solver.") + solver_name(s.kind)).c_str());
}
void c14(Ctx& c) {
  Discard d;
  std::streambuf *oo = std::cout.rdbuf(&d), *oe = std::cerr.rdbuf(&d);
  (void)cr::getProfiler();
  if (c.rng.fork(5).chance(0.6)) part_a(c); else part_b(c);
  std::cout.rdbuf(oo);
  std::cerr.rdbuf(oe);
}
Register r_("C14", c14);
}  // namespace
