// C10: what calc and calcDiff write depends on the inputs and the model's
// current parameters only, not on what the data object went through before.
#include <algorithm>
#include <cmath>

#include "common/units.hpp"
#include "common/zoo.hpp"
using namespace sim;
namespace {
enum { O_CALC, O_DIFF, O_TERM, O_TERMDIFF, O_EXTRA, O_MUTATE, O_COUNT };

void run(Ctx& c) {
  Rng r = c.rng.fork(1);
  rt::set_fill((int)r.below(rt::F_COUNT), r.u64());
  rt::Lib lib;
  Rng ru = r.fork(2);
  std::unique_ptr<Unit> m = make_unit(ru);
  c.trace("unit: %s, nx=%d nu=%d", m->name().c_str(), (int)m->nx, (int)m->nu);
  c.mark(hash_bytes(m->name().data(), m->name().size()));
  std::shared_ptr<void> d = m->make(), e = m->make();
  // e is evaluated once and must stay as it is while d is used
  bool eterm = m->has_term() && r.chance(0.3);
  {
    Rng re = r.fork(3);
    Point p = gen_point(re, *m, false);
    m->calc(e.get(), p, eterm);
    m->diff(e.get(), p, eterm);
  }
  bool emut = false;  // outputs of e also depend on model sizes
  Outs e0;
  { rt::NoLib nl; e0 = m->outs(e.get(), eterm, true); }
  int nops = r.range(1, 12);
  for (int k = 0; k < nops; k++) {
    Rng o = r.fork(1000 + (uint64_t)k);
    int op = (int)o.below(O_COUNT);
    bool wild = o.chance(0.2), brk = o.chance(0.3), alloc = o.chance(0.3);
    long nth = o.range(1, 6);
    if (alloc) nth = o.range(1, 12);
    int kind = (int)o.below(4);
    static const int kinds[] = {FK_STD, FK_CROCO, FK_ABORT, FK_BADALLOC};
    bool f = brk && c.fault(), fw = wild && c.fault();
    if (!c.op()) continue;
    if (!m->has_term() && (op == O_TERM || op == O_TERMDIFF)) op -= 2;
    if (op == O_EXTRA && !m->has_extra()) op = O_DIFF;
    // Eigen's JacobiSVD (quasiStatic) cannot be interrupted by bad_alloc
    if (op == O_EXTRA) alloc = false;
    Rng rp = o.fork(1);
    Point p;
    { rt::NoLib nl; p = gen_point(rp, *m, fw); }
    if (fw) c.count("fault.non-finite-input");
    c.mark((uint64_t)op * 8 + (f ? 4 : 0) + (fw ? 2 : 0));
    if (op == O_MUTATE) {
      rt::NoLib nl;
      Rng rm_ = o.fork(2);
      std::string s = m->mutate(rm_);
      if (!s.empty()) { c.count("op.parameter-change"); emut = true; }
      c.trace("change %s", s.c_str());
      continue;
    }
    c.trace("op %d%s%s x=%s u=%s", op, f ? " interrupted" : "", fw ? " wild" : "", str(p.x).c_str(), str(p.u).c_str());
    static const char* nm[] = {"op.calc", "op.calcDiff", "op.calc(terminal)", "op.calcDiff(terminal)", "op.quasiStatic/commands/params"};
    c.count(nm[op]);
    bool term = op == O_TERM || op == O_TERMDIFF;
    // calcDiff comes after calc of the same point; a caller may stop between
    try {
      if (f && !alloc) { g_bomb.left = nth; g_bomb.kind = kinds[kind]; }
      if (f && alloc) rt::arm_alloc_fail((uint64_t)nth, o.chance(0.3));
      if (op == O_EXTRA) m->extra(d.get(), p);
      else {
        m->calc(d.get(), p, term);
        if (op == O_DIFF || op == O_TERMDIFF) m->diff(d.get(), p, term);
      }
    } catch (Abort&) {
      c.count("fault.interrupted-by-foreign-exception");
    } catch (std::bad_alloc&) {
      c.count("fault.out-of-memory");
    } catch (std::exception&) {
      c.count("fault.interrupted-by-exception");
    }
    rt::disarm_alloc_fail();
    g_bomb.left = 0;
  }
  rt::NoLib nl;
  if (!emut) {
    std::string s = differ(m->outs(e.get(), eterm, true), e0);
    SIM_CHECK(c, s.empty(), "data-independence", "%s: evaluating one data changed another one of the same model: %s", m->name().c_str(), s.c_str());
  }
  // probes
  int nprobes = 2;
  for (int k = 0; k < nprobes; k++) {
    Rng o = r.fork(9000 + (uint64_t)k);
    bool term = m->has_term() && o.chance(0.35), ex = m->has_extra() && o.chance(0.25), both = o.chance(0.8);
    Point p = gen_point(o, *m, false);
    std::shared_ptr<void> fresh = m->make();
    Outs a, b;
    {
      rt::Lib l2;
      if (ex) {
        std::string ea, eb;
        try { a = m->extra(d.get(), p); } catch (std::exception& x) { ea = "threw"; }
        try { b = m->extra(fresh.get(), p); } catch (std::exception& x) { eb = "threw"; }
        SIM_CHECK(c, ea == eb, "stale", "%s: quasiStatic/commands/params throws only with a %s data", m->name().c_str(), ea.empty() ? "new" : "used");
      } else {
        m->calc(d.get(), p, term);
        m->calc(fresh.get(), p, term);
        if (both) {
          m->diff(d.get(), p, term);
          m->diff(fresh.get(), p, term);
        }
      }
    }
    if (!ex) { a = m->outs(d.get(), term, both); b = m->outs(fresh.get(), term, both); }
    c.count(ex ? "probe.extra" : (term ? "probe.terminal" : "probe.running"));
    std::string s = differ(a, b);
    SIM_CHECK(c, s.empty(), "stale", "%s: %s%s with a used data differs from a new data: %s", m->name().c_str(), ex ? "quasiStatic/commands/params" : (both ? "calc and calcDiff" : "calc"), term ? " (terminal)" : "", s.c_str());
    for (auto& x : a) c.logv(x.second);
    // the other data follows the changed parameters as well
    rt::Lib l2;
    if (!ex) {
      m->calc(e.get(), p, term);
      if (both) m->diff(e.get(), p, term);
      rt::NoLib l3;
      s = differ(m->outs(e.get(), term, both), b);
      SIM_CHECK(c, s.empty(), "stale", "%s: %s%s with a second data differs from a new data: %s", m->name().c_str(), both ? "calc and calcDiff" : "calc", term ? " (terminal)" : "", s.c_str());
    }
  }
}
Register reg_("C10", run);
}  // namespace
// 
