// C07: a solver (or a box-QP solver) with a past against a new one.
// C09: a solver whose problem was edited against a new one.
#include <cmath>

#include "common/refdir.hpp"
#include "common/solve.hpp"
#include "crocoddyl/core/solvers/box-qp.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
using namespace sim;
namespace {
// a callback that gives up
struct Thrower : cr::CallbackAbstract {
  size_t at;
  bool foreign;
  Thrower(size_t a, bool f) : at(a), foreign(f) {}
  void operator()(cr::SolverAbstract& s) override {
    if (s.get_iter() < at) return;
    if (foreign) throw Abort{7};
    throw std::runtime_error("callback");
  }
};
template <class F>
int guarded(F&& f) {
  rt::Lib lib;
  try {
    f();
  } catch (const Abort&) {
    return 2;
  } catch (const std::exception&) {
    return 1;
  }
  return 0;
}
std::vector<VectorXd> rand_us(Rng& r, const cr::ShootingProblem& p) {
  std::vector<VectorXd> us;
  for (auto& m : p.get_runningModels()) us.push_back(gen_u(r, (int)m->get_nu()));
  return us;
}
std::vector<VectorXd> rand_xs(Rng& r, const ProblemSpec& s) {
  std::vector<VectorXd> xs;
  for (size_t t = 0; t <= s.running.size(); t++) xs.push_back(gen_x(r, s));
  return xs;
}
void resize_wrong(Rng& r, std::vector<VectorXd>& v) {
  if (v.empty()) return;
  size_t i = r.below(v.size());
  switch (r.below(3)) {
    case 0: v[i] = VectorXd::Zero(v[i].size() + 1); break;
    case 1: v.pop_back(); if (v.empty()) v.resize(3); break;
    default: v.push_back(VectorXd::Zero(2));
  }
}
// one thing a user may have done with a solver and its problem before
void past(Ctx& c, Rng& o, int what, bool f, cr::SolverAbstract& s, int kind, const ProblemSpec& spec, FaultCtl& ctl) {
  c.mark(mix((uint64_t)what, (uint64_t)f));
  cr::ShootingProblem& p = *s.get_problem();
  auto models = make_running(spec, nullptr);
  ActionPtr term = make_one(spec.terminal, nullptr, 0);
  ctl.reset();
  if (f) {
    FaultGen fg;
    fg.kinds = kAllKinds;
    fg.max = 2;
    fg.p_sticky = 0.3;
    fg.range = (uint64_t)std::max<size_t>(8, (spec.running.size() + 1) * 12);
    int n = 1 + (int)o.below(2);
    for (int i = 0; i < n; i++) {
      Fault q;
      q.kind = fg.kinds[o.below(fg.kinds.size())];
      q.site = q.kind >= FK_NAN_D ? SITE_DIFF : q.kind >= FK_NAN_COST ? SITE_CALC : o.chance(0.45) ? SITE_DIFF : SITE_CALC;
      q.nth = (uint64_t)std::exp(o.uni(0, std::log((double)fg.range)));
      q.length = o.chance(0.3) ? 1 + o.below(60) : 1;
      q.node = -1;
      q.seed = o.u64();
      ctl.plan.push_back(q);
    }
  }
  int out = 0;
  switch (what) {
    case 0: case 1: case 2: {  // a solve with its own options
      SolverOpts so;
      so.maxiter = (size_t)o.range(1, 12);
      if (o.chance(0.6)) so.init_reg = std::pow(10., o.range(-9, 3));
      if (o.chance(0.3)) so.feasnorm = 1;
      if (o.chance(0.3)) so.th_stop = std::pow(10., o.range(-9, 0));
      so.eq = o.range(0, 2);
      if (o.chance(0.3)) so.reg_max = std::pow(10., o.range(0, 9));
      if (o.chance(0.3)) so.th_inc = o.uni(0.01, 1);
      if (o.chance(0.3)) so.th_dec = o.uni(0.01, 1);
      if (o.chance(0.2)) so.alphas = {1., 0.3, 0.01};
      apply_opts(s, kind, so);
      Warm w = gen_warm(o, spec, models, term, spec.x0, (int)o.below(5), o.chance(0.2) ? 30. : 1.);
      so.feasible = o.chance(0.3);
      if (what == 2) {
        s.setCallbacks({std::make_shared<Thrower>(o.below(4), o.chance(0.5))});
        out = guarded([&] { s.solve(w.xs, w.us, so.maxiter, so.feasible, so.init_reg); });
        s.setCallbacks({});
      } else out = run_solve(s, w, so).outcome;
      break;
    }
    case 3: {  // an invalid warm start: refused
      std::vector<VectorXd> xs = rand_xs(o, spec), us = rand_us(o, p);
      resize_wrong(o, o.chance(0.5) ? xs : us);
      out = guarded([&] { s.solve(xs, us, 3, o.chance(0.5)); });
      break;
    }
    case 4: {
      std::vector<VectorXd> xs = rand_xs(o, spec), us = rand_us(o, p);
      bool fe = o.chance(0.5);
      out = guarded([&] { s.setCandidate(xs, us, fe); });
      break;
    }
    case 5: {
      double al = std::pow(0.5, (double)o.below(4));
      bool st = o.chance(0.5);
      out = guarded([&] {
        s.computeDirection(true);
        s.tryStep(al);
        if (st) { s.expectedImprovement(); s.stoppingCriteria(); }
      });
      break;
    }
    case 6: {
      std::vector<VectorXd> xs = rand_xs(o, spec), us = rand_us(o, p);
      out = guarded([&] { p.calc(xs, us); p.calcDiff(xs, us); });
      break;
    }
    case 7: {
      std::vector<VectorXd> us = rand_us(o, p);
      out = guarded([&] { std::vector<VectorXd> x(us.size() + 1, spec.x0); p.rollout(us, x); });
      break;
    }
    case 8: {
      double a = std::pow(10., o.range(-9, 4)), b = std::pow(10., o.range(-9, 4));
      out = guarded([&] { s.set_preg(a); s.set_dreg(b); if (kind == S_KKT) { s.set_preg(0.); s.set_dreg(0.); } });
      break;
    }
    case 9: {
      std::vector<VectorXd> xs = rand_xs(o, spec), us = rand_us(o, p);
      if (o.chance(0.5)) resize_wrong(o, xs);
      out = guarded([&] { s.set_xs(xs); s.set_us(us); });
      break;
    }
    default: out = guarded([&] { s.resizeData(); });
  }
  c.trace("past: %s%s%s", what < 3 ? "solve" : what == 3 ? "refused warm start" : what == 4 ? "setCandidate" : what == 5 ? "direction and trial" : what == 6 ? "problem calc/calcDiff" : what == 7 ? "rollout" : what == 8 ? "set_preg/set_dreg" : what == 9 ? "set_xs/set_us" : "resizeData", ctl.fired ? " with a fault" : "", out == 0 ? "" : " (threw or failed)");
  ctl.reset();
}
struct Probe {
  SolverOpts opts;
  Warm warm;
  std::vector<Fault> plan;
};
SolveOut probe(cr::SolverAbstract& s, int kind, FaultCtl& ctl, const Probe& p) {
  ctl.reset();
  ctl.plan = p.plan;
  apply_opts(s, kind, p.opts);
  SolveOut o = run_solve(s, p.warm, p.opts);
  ctl.reset();
  return o;
}
void solver_past(Ctx& c) {
  Setup s;
  gen_setup(c, s, false);
  Rng r = c.rng.fork(7);
  SolverPtr sol;
  {
    rt::Lib lib;
    sol = make_solver(s.kind, s.pr, nullptr);
  }
  c.trace("%s %s", solver_name(s.kind), s.opts.describe().c_str());
  c.trace("%s", s.spec.describe().c_str());
  const int n = (int)r.range(1, 5);
  for (int k = 0; k < n; k++) {
    Rng o = r.fork(1000 + (uint64_t)k);
    int what = (int)o.below(16);
    if (what > 10) what = 0;
    const bool f = o.chance(0.6) && c.fault();
    if (!c.op()) continue;
    past(c, o, what, f, *sol, s.kind, s.spec, s.ctl);
    c.count("past_operations");
  }
  Probe p;
  p.opts = s.opts;
  p.warm = s.warm;
  Rng q = r.fork(9);
  // loose thresholds: the end of the solve depends on what its first
  // iterations decide
  if (q.chance(0.35)) p.opts.th_stop = std::pow(10., q.range(-3, 4));
  if (q.chance(0.2)) p.opts.alphas = q.chance(0.5) ? std::vector<double>{1.} : std::vector<double>{1., 0.1};
  FaultCtl plan;
  FaultGen fg;
  fg.kinds = kAllKinds;
  fg.max = q.chance(0.5) ? 0 : 2;
  fg.range = (uint64_t)std::max<size_t>(8, (s.spec.running.size() + 1) * 8);
  gen_faults(c, q, plan, fg, (int)s.spec.running.size());
  if (q.chance(0.15) && c.fault()) {
    // no trial of the first iterations gets through
    Fault z{};
    z.site = SITE_CALC;
    z.kind = q.chance(0.5) ? FK_STD : FK_NAN_COST;
    z.nth = s.spec.running.size() + 2;
    z.length = 1 + q.below(80);
    z.node = -1;
    z.seed = q.u64();
    plan.plan.push_back(z);
  }
  p.plan = plan.plan;
  c.trace("the solve under test");
  SolveOut a = probe(*sol, s.kind, s.ctl, p);
  FaultCtl ctl2;
  ProblemPtr pr2 = make_problem(s.spec, &ctl2);
  SolverPtr fresh;
  {
    rt::Lib lib;
    fresh = make_solver(s.kind, pr2, nullptr);
  }
  SolveOut b = probe(*fresh, s.kind, ctl2, p);
  std::string d = diff_out(a, b, 0);
  SIM_CHECK(c, d.empty(), "history-dependence", "%s: a solver with a past solves differently from a new one on a new problem: %s", solver_name(s.kind), d.c_str());
  // and once more, immediately
  if (q.chance(0.3)) {
    SolveOut a2 = probe(*sol, s.kind, s.ctl, p);
    d = diff_out(a2, b, 0);
    SIM_CHECK(c, d.empty(), "history-dependence", "%s: the same solve repeated gives another result: %s", solver_name(s.kind), d.c_str());
    c.count("repeated");
  }
  c.count(a.outcome == R_TRUE ? "out.true" : a.outcome == R_FALSE ? "out.false" : a.outcome == R_STD ? "out.exception" : "out.foreign");
  c.mark((uint64_t)a.outcome * 100 + a.iters.size());
  c.count((std::string("solver.") + solver_name(s.kind)).c_str());
  log_out(c, a);
}
// ---------------------------------------------------------------- box QP
struct QP { MatrixXd H; VectorXd q, lb, ub, x; bool definite = true, degenerate = false; };
QP gen_qp(Rng& r, int n, bool allow_bad) {
  QP p;
  MatrixXd A(n, n);
  for (int i = 0; i < n * n; i++) A.data()[i] = r.uni(-1, 1);
  p.H = A * A.transpose();
  p.H.diagonal().array() += r.uni(0.05, 2);
  p.H = (0.5 * (p.H + p.H.transpose())).eval();
  if (allow_bad && r.chance(0.5)) { p.H.diagonal().array() -= 5; p.definite = false; }
  p.q = gen_u(r, n, 3.);
  p.lb.resize(n); p.ub.resize(n); p.x.resize(n);
  for (int i = 0; i < n; i++) {
    double a = r.coarse(-2, 2), b = r.coarse(-2, 2);
    p.lb[i] = r.chance(0.2) ? -HUGE_VAL : std::min(a, b);
    p.ub[i] = r.chance(0.2) ? HUGE_VAL : std::max(a, b);
    if (p.ub[i] - p.lb[i] < 0.02) p.ub[i] = p.lb[i] + 0.1;
    p.x[i] = r.chance(0.3) ? (r.chance(0.5) ? std::max(p.lb[i], -9.) : std::min(p.ub[i], 9.)) : r.coarse(-3, 3);
  }
  if (allow_bad && r.chance(0.3)) p.q[(Eigen::Index)r.below((uint64_t)n)] = NAN;
  return p;
}
struct QPOut { int outcome = 0; cr::BoxQPSolution s; };
QPOut run_qp(cr::BoxQP& b, const QP& p) {
  QPOut o;
  o.outcome = guarded([&] {
    const cr::BoxQPSolution& s = b.solve(p.H, p.q, p.lb, p.ub, p.x);
    rt::NoLib nl;
    o.s = s;
  });
  return o;
}
void qp_past(Ctx& c) {
  Rng r = c.rng.fork(21);
  const int nx0 = r.range(1, 4);
  const double reg = r.chance(0.5) ? 0. : std::pow(10., r.range(-9, -2));
  std::unique_ptr<cr::BoxQP> b;
  {
    rt::Lib lib;
    b.reset(new cr::BoxQP((size_t)nx0, 100, 0.1, 1e-9, reg));
  }
  const int n = r.range(1, 6);
  for (int k = 0; k < n; k++) {
    Rng o = r.fork(1000 + (uint64_t)k);
    const bool bad = o.chance(0.35) && c.fault();
    const int what = (int)o.below(8);
    if (!c.op()) continue;
    c.mark((uint64_t)what * 2 + bad);
    if (what == 0) {
      size_t m = (size_t)o.range(1, 4);
      guarded([&] { b->set_nx(m); });
      c.trace("set_nx %zu", m);
    } else if (what == 1) {
      QP p = gen_qp(o, (int)b->get_nx() + 1, false);
      QPOut q = run_qp(*b, p);
      SIM_CHECK(c, q.outcome == 1, "boxqp-accepts-wrong-size", "BoxQP of dimension %zu solved a problem of dimension %d", b->get_nx(), (int)p.q.size());
    } else {
      QP p = gen_qp(o, (int)b->get_nx(), bad);
      QPOut q = run_qp(*b, p);
      if (bad) c.count(p.definite ? "fault.nan_qp" : "fault.indefinite_qp");
      c.trace("solve of dimension %zu %s", b->get_nx(), q.outcome ? "failed" : "");
    }
    c.count("past_qps");
  }
  Rng o = r.fork(5);
  QP p = gen_qp(o, (int)b->get_nx(), false);
  QPOut a = run_qp(*b, p);
  cr::BoxQP fresh(b->get_nx(), 100, 0.1, 1e-9, reg);
  QPOut f = run_qp(fresh, p);
  SIM_CHECK(c, a.outcome == f.outcome, "history-dependence", "BoxQP with a past %s, a new one %s", a.outcome ? "fails" : "succeeds", f.outcome ? "fails" : "succeeds");
  if (a.outcome) return;
  SIM_CHECK(c, same(MatrixXd(a.s.x), MatrixXd(f.s.x)) && same(a.s.Hff_inv, f.s.Hff_inv) && a.s.free_idx == f.s.free_idx && a.s.clamped_idx == f.s.clamped_idx, "history-dependence", "BoxQP of dimension %d with a past finds %s, a new one %s", (int)p.q.size(), str(a.s.x).c_str(), str(f.s.x).c_str());
  // shape of the answer
  const size_t nx = b->get_nx();
  SIM_CHECK(c, (size_t)a.s.x.size() == nx && a.s.free_idx.size() + a.s.clamped_idx.size() == nx && (size_t)a.s.Hff_inv.rows() == a.s.free_idx.size(), "boxqp-shape", "BoxQP of dimension %zu answers with %d values, %zu free and %zu clamped", nx, (int)a.s.x.size(), a.s.free_idx.size(), a.s.clamped_idx.size());
  for (Eigen::Index i = 0; i < a.s.x.size(); i++) SIM_CHECK(c, a.s.x[i] >= p.lb[i] && a.s.x[i] <= p.ub[i], "boxqp-bound", "BoxQP's x(%d)=%.17g is outside [%g,%g]", (int)i, a.s.x[i], p.lb[i], p.ub[i]);
  VectorXd opt;
  std::vector<int> act;
  double mg = 0;
  MatrixXd H = p.H;
  H.diagonal().array() += reg;
  if (ref_boxqp(H, p.q, p.lb, p.ub, &opt, &act, &mg) && mg > 1e-6) {
    double far = (a.s.x - opt).lpNorm<Eigen::Infinity>();
    if (far > 1e-5 * (1 + opt.lpNorm<Eigen::Infinity>())) {
      if (boxqp_stuck(H, p.q, p.lb, p.ub, a.s.x, opt)) c.count("boxqp_stalled");
      else c.violation("boxqp-optimum", "BoxQP finds %s, the minimiser is %s", str(a.s.x).c_str(), str(opt).c_str());
    } else {
      c.count("boxqp_optimum_verified");
      std::vector<size_t> fr;
      for (size_t i = 0; i < nx; i++) if (!act[i]) fr.push_back(i);
      if (mg > 1e-3 && fr == a.s.free_idx) {
        MatrixXd Hf((Eigen::Index)fr.size(), (Eigen::Index)fr.size());
        for (size_t i = 0; i < fr.size(); i++) for (size_t j = 0; j < fr.size(); j++) Hf((Eigen::Index)i, (Eigen::Index)j) = H((Eigen::Index)fr[i], (Eigen::Index)fr[j]);
        if (fr.size()) SIM_CHECK(c, (Hf * a.s.Hff_inv - MatrixXd::Identity(Hf.rows(), Hf.rows())).lpNorm<Eigen::Infinity>() < 1e-6, "boxqp-inverse", "BoxQP's inverse of the free Hessian is wrong");
      }
    }
  }
  c.log(hashm(a.s.x));
  c.count("qp_runs");
}
void c07(Ctx& c) {
  Rng r = c.rng.fork(3);
  if (r.chance(0.15)) qp_past(c);
  else solver_past(c);
}
// -------------------------------------------------------------------- C09
struct Edited {
  Ctx& c;
  ProblemSpec spec;
  FaultCtl ctl;
  ProblemPtr pr;
  GenOpts g;
  bool intro = false;
  NodeSpec node(Rng& o, bool terminal) {
    NodeSpec n = gen_node(o, spec, g, terminal);
    if (!terminal && o.chance(0.4)) n = spec.running[o.below(spec.running.size())];
    if (intro && !terminal) intro_node(n, spec.x0);
    return n;
  }
  void edit(Rng& o, int what) {
    c.mark(100 + (uint64_t)what);
    size_t T = spec.running.size();
    rt::Lib lib;
    switch (what) {
      case 0: {
        VectorXd x = gen_x(o, spec);
        spec.x0 = x;
        pr->set_x0(x);
        c.trace("edit: set_x0");
        break;
      }
      case 1: case 2: {
        size_t i = o.below(T + 1);
        NodeSpec n = node(o, i == T);
        ActionPtr m = make_one(n, &ctl, (int)i);
        if (what == 1) {
          auto d = m->createData();
          pr->updateNode(i, m, d);
        } else pr->updateModel(i, m);
        (i == T ? spec.terminal : spec.running[i]) = n;
        c.trace("edit: %s %zu of %zu (nu=%d)", what == 1 ? "updateNode" : "updateModel", i, T, n.nu);
        break;
      }
      case 3: case 4: {
        NodeSpec n = node(o, false);
        ActionPtr m = make_one(n, &ctl, (int)T - 1);
        if (what == 3) pr->circularAppend(m, m->createData());
        else pr->circularAppend(m);
        spec.running.erase(spec.running.begin());
        spec.running.push_back(n);
        c.trace("edit: circularAppend (nu=%d)", n.nu);
        break;
      }
      case 5: {
        NodeSpec n = node(o, true);
        pr->set_terminalModel(make_one(n, &ctl, (int)T));
        spec.terminal = n;
        c.trace("edit: set_terminalModel");
        break;
      }
      default: {
        int T2 = o.range(1, 6);
        std::vector<NodeSpec> ns;
        std::vector<ActionPtr> ms;
        for (int i = 0; i < T2; i++) {
          ns.push_back(node(o, false));
          ms.push_back(make_one(ns.back(), &ctl, i));
        }
        pr->set_runningModels(ms);
        spec.running = ns;
        c.trace("edit: set_runningModels of %d nodes", T2);
      }
    }
    c.count("edits");
  }
};
void c09(Ctx& c) {
  Setup s0;
  gen_setup(c, s0, false);
  Rng r = c.rng.fork(7);
  Edited e{c, s0.spec, {}, nullptr, {}, s0.kind == S_INTRO};
  e.g.cons = r.chance(0.35);
  e.g.bounds = s0.kind == S_BOXDDP || s0.kind == S_BOXFDDP ? r.chance(0.85) : r.chance(0.1);
  e.g.so2 = false;
  if (s0.spec.so2) e.g.so2 = true;
  e.pr = make_problem(e.spec, &e.ctl);
  struct S { int kind; SolverPtr p; };
  std::vector<S> sols;
  const int ns = r.chance(0.4) ? 2 : 1;
  {
    rt::Lib lib;
    sols.push_back({s0.kind, make_solver(s0.kind, e.pr, nullptr)});
    if (ns == 2) {
      int k = (int)r.below(S_COUNT);
      if (k == S_INTRO && !e.intro) k = S_FDDP;
      if (k == S_KKT && s0.kind != S_KKT && e.spec.so2) k = S_FDDP;
      sols.push_back({k, make_solver(k, e.pr, nullptr)});
    }
  }
  c.trace("%s%s%s", solver_name(sols[0].kind), ns == 2 ? " and " : "", ns == 2 ? solver_name(sols[1].kind) : "");
  c.trace("%s", e.spec.describe().c_str());
  auto check = [&](S& s, Rng& q) {
    Probe p;
    p.opts = SolverOpts();
    p.opts.maxiter = (size_t)q.range(1, 8);
    if (q.chance(0.5)) p.opts.init_reg = std::pow(10., q.range(-9, 0));
    p.opts.eq = q.range(0, 2);
    auto models = make_running(e.spec, nullptr);
    p.warm = gen_warm(q, e.spec, models, make_one(e.spec.terminal, nullptr, 0), e.spec.x0, (int)q.below(5));
    p.opts.feasible = p.warm.feasible && q.chance(0.6);
    SolveOut a = probe(*s.p, s.kind, e.ctl, p);
    FaultCtl ctl2;
    ProblemPtr pr2 = make_problem(e.spec, &ctl2);
    SolverPtr fresh;
    {
      rt::Lib lib;
      fresh = make_solver(s.kind, pr2, nullptr);
    }
    SolveOut b = probe(*fresh, s.kind, ctl2, p);
    std::string d = diff_out(a, b, 0);
    SIM_CHECK(c, d.empty(), "edit-not-followed", "%s: after editing its problem a solver solves differently from a new one on a new problem: %s", solver_name(s.kind), d.c_str());
    c.mark((uint64_t)a.outcome * 100 + a.iters.size());
    c.count("compared_solves");
    log_out(c, a);
  };
  const int n = (int)r.range(2, 8);
  for (int k = 0; k < n; k++) {
    Rng o = r.fork(1000 + (uint64_t)k);
    const int what = (int)o.below(11);
    const bool f = o.chance(0.3) && c.fault();
    if (!c.op()) continue;
    if (what < 7) e.edit(o, what);
    else if (what == 7) {
      S& s = sols[o.below(sols.size())];
      past(c, o, (int)o.below(3), f, *s.p, s.kind, e.spec, e.ctl);
    } else if (what == 8) {
      // direct use after an edit
      S& s = sols[o.below(sols.size())];
      std::vector<VectorXd> xs = rand_xs(o, e.spec), us = rand_us(o, *e.pr);
      c.trace("resizeData, setCandidate, direction, trial");
      guarded([&] {
        s.p->resizeData();
        s.p->setCandidate(xs, us, false);
        s.p->computeDirection(true);
        s.p->tryStep(0.5);
      });
    } else check(sols[o.below(sols.size())], o);
  }
  Rng q = r.fork(9);
  for (auto& s : sols) check(s, q);
  c.count((std::string("solver.") + solver_name(s0.kind)).c_str());
}
Register r7_("C07", c07), r9_("C09", c09);
}  // namespace
