// C15: what callbacks, printing and CSV files write, on streams and disks
// that fail.
#include <cmath>
#include <iomanip>
#include <iostream>
#include <sstream>

#include "common/solve.hpp"
#include "crocoddyl/core/utils/callbacks.hpp"
#include "crocoddyl/core/utils/file-io.hpp"
using namespace sim;
namespace {
// takes n bytes and then fails; `back` bytes after which it works again
struct Sink : std::streambuf {
  std::string got;
  uint64_t room = ~0ull, tried = 0, refused = 0, sync_fails = 0;
  int mode = 0;          // 0 EOF, 1 throws, 2 sync fails
  uint64_t syncs = 0, sync_at = 0;
  bool put(char ch) {
    tried++;
    if (got.size() >= room) {
      refused++;
      if (mode == 1) throw std::runtime_error("stream buffer");
      return false;
    }
    got.push_back(ch);
    return true;
  }
  int overflow(int ch) override { return ch == EOF ? 0 : put((char)ch) ? ch : EOF; }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    for (std::streamsize i = 0; i < n; i++)
      if (!put(s[i])) return i;
    return n;
  }
  int sync() override {
    if (mode == 2 && sync_at && ++syncs >= sync_at) { sync_fails++; return -1; }
    return 0;
  }
};
struct CoutTo {
  std::streambuf* old;
  explicit CoutTo(std::streambuf* b) : old(std::cout.rdbuf(b)) {
    std::cout.clear();
    std::cout.exceptions(std::ios::goodbit);
    std::cout.flags(std::ios::dec | std::ios::skipws);
    std::cout.precision(6);
  }
  ~CoutTo() {
    std::cout.exceptions(std::ios::goodbit);
    std::cout.rdbuf(old);
    std::cout.clear();
  }
};
std::vector<std::string> words(const std::string& s) {
  std::vector<std::string> f;
  std::istringstream is(s);
  std::string w;
  while (is >> w) f.push_back(w);
  return f;
}
bool shows(const std::string& w, double v, int prec, bool fixed) {
  if (std::isnan(v)) return w == "nan" || w == "-nan";
  if (std::isinf(v)) return w == (v > 0 ? "inf" : "-inf");
  char* e;
  double x = strtod(w.c_str(), &e);
  if (*e) return false;
  // the digits promised
  std::ostringstream o;
  if (fixed) o << std::fixed; else o << std::scientific;
  o << std::setprecision(prec) << v;
  return w == o.str() || x == strtod(o.str().c_str(), nullptr);
}
struct Row { size_t iter; std::vector<double> v; };
Row row_of(cr::SolverAbstract& s, int level) {
  Row r;
  r.iter = s.get_iter();
  double g = std::fabs(s.get_d()[0]);
  auto add = [&](double x) { r.v.push_back(x); };
  add(s.get_cost());
  if (level >= 1) add(s.get_merit());
  add(s.get_stop());
  add(g);
  add(s.get_preg());
  if (level >= 2) add(s.get_dreg());
  add(s.get_steplength());
  if (level >= 1) add(s.get_ffeas());
  if (level >= 3) { add(s.get_gfeas()); add(s.get_hfeas()); }
  add(s.get_dVexp());
  add(s.get_dV());
  if (level >= 4) { add(s.get_dPhiexp()); add(s.get_dPhi()); }
  return r;
}
const char* const HEAD[] = {
    "iter cost stop |grad| preg step dV-exp dV",
    "iter cost merit stop |grad| preg step ||ffeas|| dV-exp dV",
    "iter cost merit stop |grad| preg dreg step ||ffeas|| dV-exp dV",
    "iter cost merit stop |grad| preg dreg step ||ffeas|| ||gfeas|| ||hfeas|| dV-exp dV",
    "iter cost merit stop |grad| preg dreg step ||ffeas|| ||gfeas|| ||hfeas|| dV-exp dV dPhi-exp dPhi"};
size_t step_column(int level) { return level == 0 ? 4 : level == 1 ? 5 : 6; }

std::string check_rows(const std::string& text, const std::vector<Row>& rows, int level, int prec) {
  std::istringstream is(text);
  std::string line;
  for (size_t i = 0; i < rows.size(); i++) {
    if (rows[i].iter % 10 == 0) {
      if (!std::getline(is, line)) return strf("the header of iteration %zu is missing", rows[i].iter);
      std::vector<std::string> a = words(line), b = words(HEAD[level]);
      if (a != b) return strf("the header before iteration %zu is '%s'", rows[i].iter, line.c_str());
    }
    if (!std::getline(is, line)) return strf("the row of iteration %zu is missing", rows[i].iter);
    auto f = words(line);
    if (f.size() != rows[i].v.size() + 1) return strf("%zu columns instead of %zu in '%s'", f.size(), rows[i].v.size() + 1, line.c_str());
    if (f[0] != std::to_string(rows[i].iter)) return strf("iteration %s instead of %zu in '%s'", f[0].c_str(), rows[i].iter, line.c_str());
    for (size_t k = 0; k < rows[i].v.size(); k++) {
      bool step = k == step_column(level);
      if (!shows(f[k + 1], rows[i].v[k], step ? 4 : prec, step)) return strf("column %zu (%s) of iteration %zu shows %s, but the solver says %.17g", k + 1, words(HEAD[level])[k + 1].c_str(), rows[i].iter, f[k + 1].c_str(), rows[i].v[k]);
    }
  }
  if (std::getline(is, line)) return strf("surplus line '%s'", line.c_str());
  return "";
}
void part_callbacks(Ctx& c) {
  Setup s;
  gen_setup(c, s, false);
  Rng r = c.rng.fork(4);
  // some solves go on long after their optimum
  Rng ro = c.rng.fork(5);
  if (c.knob("long", ro.chance(0.04), 0)) {
    s.opts.maxiter = (size_t)(ro.chance(0.1) ? ro.range(1000, 1012) : ro.range(100, 160));
    s.opts.th_stop = 1e-300;
    c.count("probe.long_solve");
  }
  FaultCtl plan;
  FaultGen fg;
  fg.kinds = kAllKinds;
  fg.max = r.chance(0.6) ? 0 : 3;
  fg.range = (uint64_t)std::max<size_t>(8, (s.spec.running.size() + 1) * 10);
  Rng rf = r.fork(2);
  gen_faults(c, rf, plan, fg, (int)s.spec.running.size());
  int n = r.range(1, 4);
  // the solve without a printing callback
  auto solve = [&](std::shared_ptr<cr::CallbackVerbose> cb, std::vector<Row>* rows) {
    FaultCtl ctl;
    ctl.plan = plan.plan;
    ProblemPtr pr;
    SolverPtr sol;
    { rt::Lib lib; pr = make_problem(s.spec, &ctl); sol = make_solver(s.kind, pr, nullptr); }
    apply_opts(*sol, s.kind, s.opts);
    return run_solve(*sol, s.warm, s.opts, [&](cr::SolverAbstract& q) {
      if (rows) rows->push_back(row_of(q, (int)cb->get_level()));
      if (cb) { rt::Lib lib; (*cb)(q); }
    });
  };
  SolveOut quiet = solve(nullptr, nullptr);
  auto make = [&]() { rt::Lib lib; return std::make_shared<cr::CallbackVerbose>(); };
  std::shared_ptr<cr::CallbackVerbose> cb = make();
  int level = 4, prec = 3;
  SIM_CHECK(c, cb->get_level() == cr::_4 && cb->get_precision() == 3, "defaults", "a new verbose callback has other defaults");
  for (int k = 0; k < n; k++) {
    Rng o = r.fork(1000 + (uint64_t)k);
    int nl = o.range(0, 4), np = o.range(-2, 17);
    bool setl = o.chance(0.7), setp = o.chance(0.6), renew = o.chance(0.3), order = o.chance(0.5);
    bool io = c.fault();
    int mode = o.range(0, 2);
    uint64_t room = o.chance(0.3) ? o.below(40) : o.below(3000);
    bool mask = o.chance(0.3);
    uint64_t sync_at = 1 + o.below(20);
    if (!c.op()) continue;
    c.trace("level %d%s precision %d%s, stream %s", nl, setl ? "" : " (not set)", np, setp ? "" : " (not set)", !io ? "works" : mode == 2 ? "fails to flush" : mask ? "fails loudly" : "fails");
    if (renew) {
      // through the constructor
      bool ok = true;
      try { rt::Lib lib; cb = std::make_shared<cr::CallbackVerbose>((cr::VerboseLevel)nl, np); } catch (const std::exception&) { ok = false; }
      SIM_CHECK(c, ok == (np >= 0), "precision", "a callback of precision %d was %s", np, ok ? "created" : "refused");
      if (ok) { level = nl; prec = np; }
    } else {
      if (setl && order) { rt::Lib lib; cb->set_level((cr::VerboseLevel)nl); level = nl; }
      if (setp) {
        bool ok = true;
        try { rt::Lib lib; cb->set_precision(np); } catch (const std::exception&) { ok = false; }
        SIM_CHECK(c, ok == (np >= 0), "precision", "precision %d was %s", np, ok ? "accepted" : "refused");
        if (ok) prec = np;
      }
      if (setl && !order) { rt::Lib lib; cb->set_level((cr::VerboseLevel)nl); level = nl; }
    }
    SIM_CHECK(c, cb->get_level() == level && cb->get_precision() == prec, "settings", "the callback has level %d and precision %d, expected %d and %d", cb->get_level(), cb->get_precision(), level, prec);
    Sink good;
    std::vector<Row> rows;
    SolveOut a;
    {
      CoutTo to(&good);
      a = solve(cb, &rows);
    }
    std::string e = diff_out(a, quiet, 0);
    SIM_CHECK(c, e.empty(), "result", "%s: printing at level %d changed the result: %s", solver_name(s.kind), level, e.c_str());
    SIM_CHECK(c, rows.size() == quiet.iters.size(), "rows", "%zu callbacks instead of %zu", rows.size(), quiet.iters.size());
    e = check_rows(good.got, rows, level, prec);
    SIM_CHECK(c, e.empty(), "rows", "%s, level %d, precision %d: %s", solver_name(s.kind), level, prec, e.c_str());
    c.count("rows", rows.size());
    c.logs(good.got);
    if (io) {
      Sink bad;
      bad.mode = mode;
      if (mode == 2) bad.sync_at = sync_at; else bad.room = room;
      SolveOut b;
      {
        CoutTo to(&bad);
        if (mask) std::cout.exceptions(std::ios::badbit | std::ios::failbit);
        b = solve(cb, nullptr);
      }
      bool fired = bad.refused || bad.sync_fails;
      if (fired) c.count(mode == 2 ? "fault.flush" : mode == 1 ? "fault.stream_throws" : "fault.stream_full");
      SIM_CHECK(c, good.got.compare(0, bad.got.size(), bad.got) == 0, "prefix", "%s, level %d: the bytes on a failing stream are no prefix of the output", solver_name(s.kind), level);
      if (!fired) SIM_CHECK(c, bad.got == good.got, "prefix", "%s: output differs between equal solves", solver_name(s.kind));
      if (fired && mask) {
        SIM_CHECK(c, b.outcome == R_STD, "silent", "%s: a stream told to raise its failures did not end the solve (%d)", solver_name(s.kind), b.outcome);
      } else {
        e = diff_out(b, quiet, 0);
        SIM_CHECK(c, e.empty(), "result", "%s: a failing stream changed the result: %s", solver_name(s.kind), e.c_str());
      }
    }
    c.mark((uint64_t)level * 1000 + (uint64_t)prec * 10 + (uint64_t)(io ? mode : 5));
  }
  // printing a problem
  {
    ProblemPtr pr;
    { rt::Lib lib; pr = make_problem(s.spec, nullptr); }
    std::ostringstream os;
    { rt::Lib lib; os << *pr; }
    Sink bad;
    bad.room = r.below(200);
    bad.mode = r.range(0, 1);
    bool f = c.fault();
    if (f) {
      std::ostream o(&bad);
      { rt::Lib lib; o << *pr; }
      SIM_CHECK(c, os.str().compare(0, bad.got.size(), bad.got) == 0, "prefix", "the bytes of a printed problem on a failing stream are no prefix of it");
      if (bad.refused) c.count("fault.stream_full");
    }
  }
  c.mark((uint64_t)quiet.outcome * 100 + quiet.iters.size());
  c.count((std::string("solver.") + solver_name(s.kind)).c_str());
}
// ---- CSV
std::string csv_quoted(const std::string& s) {
  std::string o = "\"";
  for (char ch : s) {
    if (ch == '"') o += '"';
    o += ch;
  }
  return o + "\"";
}
void part_csv(Ctx& c) {
  Rng r = c.rng.fork(3);
  rt::DiskPlan& D = rt::g_disk;
  int files = r.range(1, 3);
  for (int f = 0; f < files; f++) {
    Rng o = r.fork(100 + (uint64_t)f);
    D = rt::DiskPlan();
    static const char* SEP[] = {",", ";", "\t", " | "};
    std::string sep = SEP[o.range(0, 3)];
    bool defsep = sep == "," && o.chance(0.5);
    // the disk
    int kind = o.range(0, 7);
    uint64_t at = 1 + o.below(6);
    uint64_t cap = o.chance(0.5) ? o.below(200) : o.below(20000);
    bool sticky = o.chance(0.5);
    int n = (int)c.knob("items", o.chance(0.2) ? o.range(100, 1500) : o.range(1, 60), 1);
    bool armed = kind > 0 && c.fault();
    bool unclean = false;   // bytes may be written twice once the disk recovers
    if (armed) switch (kind) {
      case 1: D.capacity = cap; break;
      case 2: D.fail_write_at = at; D.fail_errno = 5; D.sticky = sticky; break;
      case 3: D.short_write_at = at; break;
      case 4: D.eintr_at = at; break;
      case 5: D.fail_open = true; break;
      case 6: D.fail_close = true; break;
      case 7: D.short_write_at = at; D.fail_write_at = at + 1; D.fail_errno = 28; D.sticky = sticky; unclean = !sticky; break;
    }
    if (!c.op()) continue;
    static const char* KN[] = {"sound", "full after some bytes", "failing writes", "a short write", "an interrupted write", "not opened", "failing to close", "a short then failing write"};
    c.trace("file %d: %d items, disk: %s", f, n, KN[armed ? kind : 0]);
    D.active = true;
    std::string want;          // all that was written
    size_t done = 0;           // and what surely was flushed
    bool opened = false, failed = false, first = true;
    std::string what;
    uint64_t len_at_failure = 0;
    {
      std::unique_ptr<CsvStream> csv;
      try {
        rt::Lib lib;
        if (defsep) csv.reset(new CsvStream("/verif/none.csv"));
        else csv.reset(new CsvStream("/verif/none.csv", sep));
        opened = true;
      } catch (const std::ios_base::failure& e) {
        what = e.what();
      }
      SIM_CHECK(c, opened == !(armed && kind == 5), "open", "opening the file %s", opened ? "succeeded although the file cannot be opened" : ("threw " + what).c_str());
      if (armed && kind == 5) c.count("fault.open");
      for (int k = 0; opened && k < n; k++) {
        Rng q = o.fork(1000 + (uint64_t)k);
        int op = q.range(0, 9);
        std::string s;
        std::string item;
        double d = q.chance(0.1) ? INFINITY : q.chance(0.05) ? NAN : q.uni(-1e3, 1e3);
        int i = (int)q.u64();
        if (op < 4) {
          size_t len = q.chance(0.03) ? q.below(12000) : q.below(12);
          for (size_t b = 0; b < len; b++) s.push_back("abc\"\",; \t\n'\\"[q.below(12)]);
        }
        if (want.size() + s.size() * 2 > 60000) break;
        if (!c.op()) continue;
        switch (op) {
          case 0: case 1: case 2: case 3: item = csv_quoted(s); break;
          case 4: case 5: { std::ostringstream os; os << d; item = os.str(); break; }
          case 6: item = std::to_string(i); break;
          default: break;
        }
        std::string before = want;
        if (op <= 6) { want += (first ? "" : sep) + item; first = false; }
        else if (op <= 8) { want += "\n"; first = true; }
        uint64_t fired = D.fired;
        bool ok = true;
        try {
          rt::Lib lib;
          switch (op) {
            case 0: case 1: *csv << s; break;
            case 2: case 3: *csv << s.c_str(); break;
            case 4: case 5: *csv << d; break;
            case 6: *csv << i; break;
            case 7: *csv << CsvStream::endl; break;
            case 8: csv->endrow(); break;
            default: csv->flush(); break;
          }
        } catch (const std::ios_base::failure& e) {
          ok = false;
          what = e.what();
        }
        if (!ok) {
          SIM_CHECK(c, failed || D.fired > 0, "spurious", "writing to a sound disk threw %s", what.c_str());
          if (!failed) len_at_failure = D.len;
          failed = true;
          c.count("write_refused");
        } else {
          SIM_CHECK(c, !failed, "silent", "a write after a failed one was accepted");
          (void)fired;
          if (op >= 7) done = want.size();
        }
        if (ok && op >= 7)
          SIM_CHECK(c, D.len == want.size() && memcmp(D.buf, want.data(), D.len) == 0, "flush", "%s returned, but %llu of %zu bytes are on the disk", op == 9 ? "flush" : "the end of a row", (unsigned long long)D.len, want.size());
        c.mark((uint64_t)op * 2 + ok);
      }
      rt::Lib lib;
      csv.reset();   // must not throw
    }
    D.active = false;
    if (!opened) { SIM_CHECK(c, D.len == 0, "open", "bytes of a file that was not opened"); continue; }
    if (D.fired) c.count(kind == 1 ? "fault.disk_full" : kind == 2 ? "fault.write_error" : kind == 3 ? "fault.short_write" : kind == 4 ? "fault.eintr" : kind == 6 ? "fault.close" : "fault.short_then_error");
    std::string got(D.buf, D.len);
    if (!unclean) {
      SIM_CHECK(c, want.compare(0, got.size(), got) == 0, "prefix", "disk with %s: the %zu bytes in the file are no prefix of the %zu written", KN[armed ? kind : 0], got.size(), want.size());
    } else if (failed) {
      SIM_CHECK(c, want.compare(0, len_at_failure, got, 0, len_at_failure) == 0, "prefix", "disk with %s: the bytes in the file are no prefix", KN[kind]);
    }
    SIM_CHECK(c, got.size() >= done, "lost", "%zu bytes in the file, but %zu were flushed", got.size(), done);
    bool harmless = !armed || D.fired == 0 || kind == 3 || kind == 4 || kind == 6;
    if (harmless) SIM_CHECK(c, got == want && !failed, "content", "disk with %s: the file has %zu of %zu bytes%s", KN[armed ? kind : 0], got.size(), want.size(), failed ? " and a write failed" : "");
    SIM_CHECK(c, D.fd < 0, "leak", "the file was left open");
    c.logs(got);
  }
  D = rt::DiskPlan();
  c.count("csv");
}
void c15(Ctx& c) {
  if (c.rng.fork(5).chance(0.55)) part_callbacks(c); else part_csv(c);
}
Register r_("C15", c15);
}  // namespace
