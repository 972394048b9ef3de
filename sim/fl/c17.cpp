// C17: a model cast to another scalar type is the same model, complete and
// independent of the one it was cast from. Every run takes a model of some
// kind through a history of parameter changes, casts it to float and back
// (allocations may fail meanwhile), and then edits both in any order.
#include <cmath>

#include "common/coll.hpp"
#include "common/units.hpp"
#include "common/zoo.hpp"
using namespace sim;
namespace {
std::string close(const Outs& a, const Outs& b, double tol) {
  if (a.size() != b.size()) return "different outputs";
  for (size_t k = 0; k < a.size(); k++) {
    const MatrixXd &x = a[k].second, &y = b[k].second;
    if (strcmp(a[k].first, b[k].first)) return strf("%s instead of %s", b[k].first, a[k].first);
    if (x.rows() != y.rows() || x.cols() != y.cols()) return strf("%s is %dx%d instead of %dx%d", a[k].first, (int)y.rows(), (int)y.cols(), (int)x.rows(), (int)x.cols());
    double s = 1;
    for (Eigen::Index i = 0; i < x.size(); i++) if (std::fabs(x.data()[i]) < 1e30) s = std::max(s, std::fabs(x.data()[i]));
    for (Eigen::Index j = 0; j < x.cols(); j++)
      for (Eigen::Index i = 0; i < x.rows(); i++) {
        double p = x(i, j), q = y(i, j);
        if (std::isnan(p) && std::isnan(q)) continue;
        // no bound at all, whichever number stands for it
        if (std::fabs(p) > 3e38 && std::fabs(q) > 3e38 && (p > 0) == (q > 0)) continue;
        if (!(std::fabs(p - q) <= tol * s)) return strf("%s(%d,%d) is %.9g instead of %.9g", a[k].first, (int)i, (int)j, q, p);
      }
  }
  return "";
}
struct Eval { Outs calc, diff, extra; };
Eval eval(Unit& m, const Point& p, bool term) {
  Eval e;
  std::shared_ptr<void> d;
  {
    rt::Lib lib;
    d = m.make();
    m.calc(d.get(), p, term);
  }
  e.calc = m.outs(d.get(), term, false);
  {
    rt::Lib lib;
    m.diff(d.get(), p, term);
  }
  e.diff = m.outs(d.get(), term, true);
  if (m.has_extra() && m.name().compare(0, 6, "action") && m.name().compare(0, 12, "differential")) {
    rt::Lib lib;
    e.extra = m.extra(d.get(), p);
  }
  return e;
}
Point point(Rng r, const Unit& m) {
  Point p = gen_point(r, m, false);
  for (Eigen::Index i = 0; i < p.u.size(); i++) p.u[i] += r.uni(-0.01, 0.01);
  if (!m.so2) for (Eigen::Index i = 0; i < p.x.size(); i++) p.x[i] += r.uni(-0.01, 0.01);
  return p;
}
std::string same(Unit& a, Unit& b, const Point& p, bool term) {
  Eval x = eval(a, p, term), y = eval(b, p, term);
  std::string s = close(x.calc, y.calc, 1e-4);
  if (s.empty()) s = close(x.diff, y.diff, 5e-3);
  if (s.empty()) s = close(x.extra, y.extra, 5e-3);
  return s;
}
void compare(Ctx& c, Rng r, Unit& a, Unit& b, const char* when) {
  for (int k = 0; k < 2; k++) {
    Rng o = r.fork((uint64_t)k);
    bool term = a.has_term() && b.has_term() && o.chance(0.35);
    SIM_CHECK(c, a.has_term() == b.has_term(), "parameters", "%s: %s, only one of the models can be a terminal one", a.name().c_str(), when);
    Point p = point(o.fork(1), a);
    std::string s = same(a, b, p, term);
    c.count(term ? "probe.terminal" : "probe.running");
    if (s.empty()) continue;
    // on the edge of a barrier rounding may decide: not so at three points
    int n = 0;
    for (int i = 0; i < 3; i++) n += !same(a, b, point(o.fork(2 + (uint64_t)i), a), term).empty();
    SIM_CHECK(c, n < 2, "values", "%s: %s, the cast model evaluates differently%s: %s", a.name().c_str(), when, term ? " (terminal)" : "", s.c_str());
  }
  // after a running evaluation: managers collect the bounds of their items then
  Point p = point(r.fork(9), a);
  eval(a, p, false);
  eval(b, p, false);
  {
    Outs x, y;
    { rt::Lib lib; x = a.report(); y = b.report(); }
    std::string s = close(x, y, 1e-5);
    SIM_CHECK(c, s.empty(), "parameters", "%s: %s, the cast model reports other parameters: %s", a.name().c_str(), when, s.c_str());
    for (auto& e : y) c.logv(e.second);
  }
}
Outs all(Unit& m, const Point& p) {
  Outs o;
  for (int t = m.has_term() ? 1 : 0; t >= 0; t--) {
    Eval e = eval(m, p, t);
    o.insert(o.end(), e.diff.begin(), e.diff.end());
    o.insert(o.end(), e.extra.begin(), e.extra.end());
  }
  rt::Lib lib;
  Outs q = m.report();
  o.insert(o.end(), q.begin(), q.end());
  return o;
}
std::string edit(Unit& m, Rng r) {
  if (m.state() && r.chance(0.15)) {
    StatePtr s = m.state();
    Eigen::Index n = (Eigen::Index)s->get_nx();
    VectorXd lb = -rpos(r, n), ub = rpos(r, n);
    if (r.chance(0.5) && n) lb[(Eigen::Index)r.below((uint64_t)n)] = -HUGE_VAL;
    s->set_lb(lb);
    s->set_ub(ub);
    return "state bounds";
  }
  if (r.chance(0.2)) {
    std::string s = m.mutate_more(r);
    if (!s.empty()) return s;
  }
  for (int k = 0; k < 4; k++) {
    Rng q = r.fork((uint64_t)k);
    std::string s = m.mutate(q);
    if (!s.empty()) return s;
  }
  return "";
}
// one fault-tolerant cast; null when memory ran out
std::unique_ptr<Unit> cast(Ctx& c, Unit& m, Rng r, const char* what) {
  bool oom = r.chance(0.3) && c.fault();
  Point p = point(r.fork(1), m);
  Outs before = all(m, p);
  for (int k = 0; k < 2; k++) {
    std::unique_ptr<Unit> b;
    std::string err;
    bool armed = oom && !k;
    if (armed) { rt::Lib lib; rt::arm_alloc_fail((uint64_t)r.range(1, 80), r.chance(0.3)); }
    uint64_t f0 = rt::alloc_failures(), seq0 = rt::seq_now(), left = 0;
    {
      rt::Lib lib;
      try { b = m.recast(); } catch (NoCast&) { rt::disarm_alloc_fail(); throw; } catch (std::bad_alloc&) { err = "bad_alloc"; } catch (std::exception& e) { rt::NoLib nl; err = e.what(); }
    }
    rt::disarm_alloc_fail();
    bool failed = rt::alloc_failures() > f0;
    if (failed) c.count("fault.out-of-memory-in-cast");
    SIM_CHECK(c, err.empty() || failed, "throws", "%s: the cast of %s throws: %s", m.name().c_str(), what, err.c_str());
    if (failed && !b) {
      rt::g_live_scoped_only = true;
      rt::for_live(seq0, rt::seq_now() + 1, [](void*, size_t, uint64_t, void* n) { ++*(uint64_t*)n; }, &left);
      SIM_CHECK(c, left == 0, "leak", "%s: a cast of %s that ran out of memory leaves %llu blocks", m.name().c_str(), what, (unsigned long long)left);
    }
    std::string s = differ(all(m, p), before);
    SIM_CHECK(c, s.empty(), "source", "%s: casting %s changed it%s: %s", m.name().c_str(), what, failed ? " (out of memory)" : "", s.c_str());
    if (failed) continue;
    c.count("op.cast");
    return b;
  }
  return nullptr;
}
void run(Ctx& c) {
  Rng r = c.rng.fork(1);
  rt::set_fill((int)r.below(rt::F_COUNT), r.u64());
  std::unique_ptr<Unit> a, b;
  for (int k = 0; k < 30 && !b; k++) {
    Rng ru = r.fork(100 + (uint64_t)k);
    {
      rt::Lib lib;
      a = ru.chance(0.12) ? make_problem_unit(ru) : make_unit(ru, true);
    }
    int n = (int)ru.below(5);
    for (int i = 0; i < n; i++) {
      bool on = c.op();
      std::string s;
      if (!on) continue;
      { rt::Lib lib; s = edit(*a, ru.fork(50 + (uint64_t)i)); }
      c.trace("before the cast: change %s", s.c_str());
    }
    try { b = cast(c, *a, r.fork(3), "a model"); } catch (NoCast&) { c.count("model.not-castable"); continue; }
  }
  if (!b) return;
  c.trace("unit: %s", a->name().c_str());
  c.mark(hash_bytes(a->name().data(), a->name().size()));
  compare(c, r.fork(4), *a, *b, "after the cast");
  int nops = r.range(0, 6);
  for (int k = 0; k < nops; k++) {
    Rng o = r.fork(1000 + (uint64_t)k);
    int op = (int)o.below(6);
    if (!c.op()) continue;
    c.mark((uint64_t)op);
    if (op < 5) {
      // the same change on both, one after the other
      bool first = op % 2 == 0;
      Unit &x = first ? *a : *b, &y = first ? *b : *a;
      Point p = point(o.fork(1), *a);
      Outs y0 = all(y, p);
      std::string s, t;
      { rt::Lib lib; s = edit(x, o.fork(2)); }
      c.trace("change %s of the %s", s.c_str(), first ? "source" : "cast");
      std::string df = differ(all(y, p), y0);
      SIM_CHECK(c, df.empty(), "independence", "%s: change of %s in the %s also changed the %s: %s", a->name().c_str(), s.c_str(), first ? "source" : "cast", first ? "cast" : "source", df.c_str());
      {
        rt::Lib lib;
        std::string err;
        try { t = edit(y, o.fork(2)); } catch (std::exception& e) { rt::NoLib nl; err = e.what(); }
        SIM_CHECK(c, err.empty(), "edit", "%s: change of %s is refused by the %s only: %s", a->name().c_str(), s.c_str(), first ? "cast" : "source", err.c_str());
      }
      SIM_CHECK(c, s == t, "edit", "%s: change of %s in the %s is one of '%s' in the other", a->name().c_str(), s.c_str(), first ? "source" : "cast", t.c_str());
      c.count("op.change");
      compare(c, o.fork(3), *a, *b, "after the same change of both");
    } else if (o.chance(0.4)) {
      // the copy may share parts with its source
      std::unique_ptr<Unit> n;
      Unit& x = o.chance(0.5) ? *a : *b;
      g_copy_ctor = o.chance(0.5);
      { rt::Lib lib; n = x.copy(); }
      c.count("op.copy");
      std::string s;
      Point p = point(o.fork(6), *a);
      { Outs u = all(x, p), v = all(*n, p); s = close(u, v, 1e-9); }
      SIM_CHECK(c, s.empty(), "copy", "%s: a copy differs: %s", a->name().c_str(), s.c_str());
    } else {
      auto n = cast(c, *b, o.fork(4), "a cast model");
      if (n) b = std::move(n);
      compare(c, o.fork(5), *a, *b, "after a second cast");
    }
  }
}
Register reg_("C17", run);
}  // namespace
