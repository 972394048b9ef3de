// C01: evaluating a shooting problem with many threads.
#include <cmath>

#include "common/solve.hpp"
#include "common/zoo.hpp"
#include "mt/sched.hpp"
using namespace sim;
namespace {
struct Node {
  NodeSpec spec;
  FaultCtl* actl = nullptr;  // of the node under test
  FaultCtl* bctl = nullptr;  // of its reference
  ActionPtr a, b;
  ADataPtr bd;
};
struct World {
  Ctx& c;
  ProblemSpec spec;
  std::vector<std::unique_ptr<FaultCtl>> ctls;
  std::vector<std::pair<uint64_t, ActionPtr>> pool;
  std::vector<Node> nodes;
  Node term;
  ProblemPtr pr;
  std::vector<ProblemPtr> kept;
  double p_wrap, p_fault;
  bool share;
  VectorXd x0;
  std::vector<VectorXd> xs, us;
  bool evaluated = false;
  int idgen = 0;
  explicit World(Ctx& ctx) : c(ctx) {}

  FaultCtl* ctl() { ctls.emplace_back(new FaultCtl); return ctls.back().get(); }
  Node make(const NodeSpec& s, Rng& r, bool terminal) {
    Node n;
    n.spec = s;
    ActionPtr in;
    if (share && !terminal)
      for (auto& e : pool) if (e.first == s.key()) in = e.second;
    if (!in) {
      in = make_action(s);
      if (!terminal) pool.push_back({s.key(), in});
    }
    n.a = in;
    n.b = make_action(s);
    if (r.chance(p_wrap)) {
      n.actl = ctl();
      n.bctl = ctl();
      const int id = idgen++;
      n.a = std::make_shared<SimAction>(n.a, n.actl, id);
      n.b = std::make_shared<SimAction>(n.b, n.bctl, id);
    }
    n.bd = n.b->createData();
    return n;
  }
  void draw_point(Rng& r) {
    xs.clear(); us.clear();
    const double s = r.chance(0.2) ? 3. : 1.;
    for (auto& n : nodes) { xs.push_back(gen_x(r, spec, s)); us.push_back(gen_u(r, n.spec.nu, s)); }
    xs.push_back(gen_x(r, spec, s));
    for (size_t i = 0; i < us.size(); i++)
      if ((size_t)us[i].size() != nodes[i].a->get_nu()) us[i] = gen_u(r, (int)nodes[i].a->get_nu(), s);
  }
  void compare(const char* what, int which, double got, bool terminal = true) {
    double sum = 0, mag = 0;
    for (size_t i = 0; i <= nodes.size(); i++) {
      const bool t = i == nodes.size();
      if (t && !terminal) break;
      const cr::ActionDataAbstract& A = t ? *pr->get_terminalData() : *pr->get_runningDatas()[i];
      const cr::ActionDataAbstract& B = t ? *term.bd : *nodes[i].bd;
      const std::string d = diff_data(A, B, t ? (which & ~4) : which);
      if (!d.empty()) c.violation("differs", "%s on %zu threads: node %zu of %zu: %s when evaluated alone", what, pr->get_nthreads(), i, nodes.size(), d.c_str());
      sum += B.cost;
      mag += std::abs(B.cost);
      c.log(hash_data(A));
    }
    if (terminal && !(std::isnan(sum) && std::isnan(got)) && !(std::abs(got - sum) <= 1e-13 * mag) && !(got == sum))
      c.violation("cost", "%s on %zu threads returns %.17g; the costs of the nodes sum to %.17g", what, pr->get_nthreads(), got, sum);
  }
  // faults of one operation
  std::vector<int> armed;
  void arm(Rng& r, int site) {
    armed.clear();
    for (size_t i = 0; i <= nodes.size(); i++) {
      Node& n = i < nodes.size() ? nodes[i] : term;
      if (!n.actl) continue;
      Rng q = r.fork(i + 77);
      n.actl->plan.clear();
      n.bctl->plan.clear();
      for (int k = 0; k < SITE_COUNT; k++) n.actl->calls[k] = n.bctl->calls[k] = 0;
      if (!q.chance(p_fault)) continue;
      if (!c.fault()) continue;
      Fault f;
      f.site = site; f.length = 1; f.node = -1; f.seed = q.u64();
      f.kind = site == SITE_QS ? kThrowKinds[q.below(3)] : q.chance(0.5) ? kThrowKinds[q.below(kThrowKinds.size())] : kValueKinds[q.below(kValueKinds.size())];
      if (site == SITE_CALC && (f.kind >= FK_NAN_D)) f.kind = FK_STD;
      f.nth = 1;
      n.actl->plan.push_back(f);
      n.bctl->plan.push_back(f);
      if (f.kind <= FK_TORN) armed.push_back(f.kind);
    }
  }
  uint64_t fired() {
    uint64_t s = 0;
    for (auto& n : nodes) if (n.actl) s += n.actl->fired_throw;
    if (term.actl) s += term.actl->fired_throw;
    return s;
  }
  // 0 fine, 1 a model's exception, 2 allocation failure
  template <class F>
  int guard(const char* what, F&& f) {
    const uint64_t before = fired(), oom = rt::alloc_failures();
    int kind = -1;
    std::string msg;
    try {
      rt::Lib l;
      f();
    } catch (const Abort&) {
      kind = FK_ABORT;
    } catch (const std::bad_alloc&) {
      kind = FK_BADALLOC;
    } catch (const cr::Exception& e) {
      kind = FK_CROCO; msg = e.what();
    } catch (const std::exception& e) {
      kind = FK_STD; msg = e.what();
    }
    rt::disarm_alloc_fail();
    const bool starved = rt::alloc_failures() > oom;
    if (kind < 0) {
      if (fired() != before) c.violation("lost-exception", "%s on %zu threads returned although the model of a node threw", what, pr->get_nthreads());
      return 0;
    }
    c.mark(100 + kind);
    c.log(kind);
    if (starved && (kind == FK_BADALLOC)) { c.count("op.out_of_memory"); return 2; }
    bool known = false;
    for (int k : armed) if (k == kind || (k == FK_TORN && kind == FK_STD) || (k == FK_BADALLOC && kind == FK_BADALLOC)) known = true;
    if (fired() == before || !known) c.violation("other-exception", "%s on %zu threads threw '%s' (kind %d), which no model had thrown", what, pr->get_nthreads(), msg.c_str(), kind);
    c.count("op.threw");
    return 1;
  }
  void run() {
    Rng r = c.rng.fork(1);
    GenOpts g;
    g.cons = r.chance(0.4);
    g.units = r.chance(0.5);
    g.bounds = r.chance(0.2);
    g.minT = 1;
    g.maxT = 8;
    spec = gen_problem(c, r, g);
    share = r.chance(0.75);
    p_wrap = r.chance(0.3) ? 0 : 0.6;
    p_fault = r.chance(0.4) ? 0 : r.uni(0.02, 0.4);
    x0 = spec.x0;
    Rng w = r.fork(2);
    std::vector<ActionPtr> models;
    for (auto& n : spec.running) { nodes.push_back(make(n, w, false)); models.push_back(nodes.back().a); }
    term = make(spec.terminal, w, true);
    {
      rt::Lib l;
      pr = std::make_shared<cr::ShootingProblem>(x0, models, term.a);
    }
    models.clear();
    c.trace("%s%s", spec.describe().c_str(), share ? " shared models" : "");
    start_scheduler(c, r.fork(3));
    rt::g_step_limit = 0;
    Rng z = r.fork(4);
    const long n0 = c.knob("threads", z.range(1, 8), 1);
    pr->set_nthreads((int)n0);
    draw_point(z);
    const long nops = c.knob("ops", z.range(3, 14), 1);
    for (long k = 0; k < nops; k++) {
      Rng o = r.fork(1000 + (uint64_t)k);
      const int op = (int)o.below(16);
      const bool limit = o.chance(0.15) && c.fault();
      const bool oom = o.chance(0.1) && c.fault();
      if (!c.op()) continue;
      mt::set_team_limit(limit ? (int)o.range(1, 3) : 1 << 20);
      if (limit) c.count("fault.fewer_threads");
      c.mark((uint64_t)op);
      if (op <= 3 || op == 4 || op == 5) {  // calc, then maybe derivatives
        const bool newpoint = o.chance(0.7);
        Rng q = o.fork(1);
        if (newpoint) draw_point(q);
        arm(q, SITE_CALC);
        if (oom) rt::arm_alloc_fail(1 + q.below(q.chance(0.5) ? 4 : 40), false);
        double got = 0;
        c.trace("calc on %zu threads%s", pr->get_nthreads(), oom ? ", allocation failure armed" : "");
        const int res = guard("calc", [&] { got = pr->calc(xs, us); });
        c.count("op.calc");
        // the reference nodes; one that throws is left for later
        for (size_t i = 0; i <= nodes.size(); i++) {
          Node& n = i < nodes.size() ? nodes[i] : term;
          try {
            if (i < nodes.size()) n.b->calc(n.bd, xs[i], us[i]);
            else n.b->calc(n.bd, xs[i]);
          } catch (...) { if (!res) c.harness("reference threw"); }
        }
        if (res && oom) c.count("fault.alloc_failure");
        evaluated = res == 0;
        if (!evaluated) continue;
        compare("calc", 1 | 8, got);
        if (op < 3) continue;
      }
      if (op >= 4 && op <= 9) {
        if (!evaluated) continue;
        Rng q = o.fork(2);
        arm(q, SITE_DIFF);
        if (oom) rt::arm_alloc_fail(1 + q.below(q.chance(0.5) ? 4 : 40), false);
        double got = 0;
        c.trace("calcDiff on %zu threads%s", pr->get_nthreads(), oom ? ", allocation failure armed" : "");
        const int res = guard("calcDiff", [&] { got = pr->calcDiff(xs, us); });
        c.count("op.calcDiff");
        for (size_t i = 0; i <= nodes.size(); i++) {
          Node& n = i < nodes.size() ? nodes[i] : term;
          try {
            if (i < nodes.size()) n.b->calcDiff(n.bd, xs[i], us[i]);
            else n.b->calcDiff(n.bd, xs[i]);
          } catch (...) { if (!res) c.harness("reference threw"); }
        }
        if (res && oom) c.count("fault.alloc_failure");
        if (res) { evaluated = false; continue; }
        compare("calcDiff", 2 | 4 | 8, got);
        continue;
      }
      switch (op) {
        case 10: {
          Rng q = o.fork(3);
          draw_point(q);
          arm(q, SITE_QS);
          std::vector<VectorXd> x(xs.begin(), xs.end() - 1), got, want;
          for (size_t i = 0; i < nodes.size(); i++) want.push_back(VectorXd::Zero((Eigen::Index)nodes[i].a->get_nu()));
          c.trace("quasiStatic on %zu threads", pr->get_nthreads());
          c.count("op.quasiStatic");
          const int res = guard("quasiStatic", [&] { got = pr->quasiStatic_xs(x); });
          for (size_t i = 0; i < nodes.size(); i++) {
            try {
              Eigen::Ref<VectorXd> ui(want[i]);
              nodes[i].b->quasiStatic(nodes[i].bd, ui, x[i]);
            } catch (...) { if (!res) c.harness("reference threw"); }
          }
          evaluated = false;
          if (res) break;
          for (size_t i = 0; i < nodes.size(); i++)
            if (!same(got[i], want[i])) {
              bool nan = false;
              for (Eigen::Index j = 0; j < want[i].size(); j++) nan |= std::isnan(want[i][j]);
              if (!nan) c.violation("quasistatic", "quasiStatic on %zu threads: node %zu of %zu gives %s instead of %s when evaluated alone", pr->get_nthreads(), i, nodes.size(), str(got[i]).c_str(), str(want[i]).c_str());
            }
          break;
        }
        case 11: {
          Rng q = o.fork(4);
          draw_point(q);
          arm(q, SITE_CALC);
          std::vector<VectorXd> got(nodes.size() + 1), want;
          c.trace("rollout");
          c.count("op.rollout");
          const int res = guard("rollout", [&] { pr->rollout(us, got); });
          want.push_back(x0);
          try {
            for (size_t i = 0; i < nodes.size(); i++) { nodes[i].b->calc(nodes[i].bd, want[i], us[i]); want.push_back(nodes[i].bd->xnext); }
            term.b->calc(term.bd, want.back());
          } catch (...) { if (!res) c.harness("reference threw"); }
          evaluated = false;
          if (res) break;
          for (size_t i = 0; i < want.size(); i++)
            if (!(got[i].array() == want[i].array() || (got[i].array().isNaN() && want[i].array().isNaN())).all())
              c.violation("rollout", "rollout: state %zu is %s instead of %s", i, str(got[i]).c_str(), str(want[i]).c_str());
          xs = got;
          break;
        }
        case 12:
        case 13: {
          const int n = (int)o.range(-1, 9);
          c.trace("set_nthreads(%d)", n);
          c.count("op.set_nthreads");
          pr->set_nthreads(n);
          const size_t want = n < 1 ? (size_t)CROCODDYL_WITH_NTHREADS : (size_t)n;
          if (pr->get_nthreads() != want && pr->get_nthreads() != 1) c.violation("nthreads", "set_nthreads(%d) left %zu threads", n, pr->get_nthreads());
          break;
        }
        case 14: {  // another node
          Rng q = o.fork(5);
          NodeSpec s = spec.running[q.below(spec.running.size())];
          if (q.chance(0.5)) s.seed = q.u64();
          const bool app = q.chance(0.4);
          const size_t i = app ? nodes.size() - 1 : q.below(nodes.size());
          Node n = make(s, q, false);
          c.trace("%s", app ? "circularAppend" : strf("updateModel(%zu)", i).c_str());
          c.count(app ? "op.circularAppend" : "op.updateModel");
          rt::Lib l;
          if (app) {
            pr->circularAppend(n.a);
            nodes.erase(nodes.begin());
            nodes.push_back(n);
          } else {
            pr->updateModel(i, n.a);
            nodes[i] = n;
          }
          rt::NoLib nl;
          draw_point(q);
          evaluated = false;
          break;
        }
        case 15: {
          c.trace("copy");
          c.count("op.copy");
          // the copy shares the datas of its source
          ProblemPtr q = std::make_shared<cr::ShootingProblem>(*pr);
          if (o.chance(0.5)) kept.push_back(pr);
          pr = q;
          break;
        }
      }
    }
    end_scheduler(c);
  }
};
}  // namespace
static void c01(Ctx& c) {
  World w(c);
  w.run();
}
static Register r_("C01", c01);
