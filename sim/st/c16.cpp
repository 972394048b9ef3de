// C16: the Ipopt solver on failing models, and its interface under an
// optimiser that asks for anything in any order.
#include <cmath>
#include <iostream>

#include "common/refdir.hpp"
#include "common/solve.hpp"
#include "crocoddyl/core/solvers/ipopt.hpp"
#include "crocoddyl/core/solvers/ipopt/ipopt-iface.hpp"
using namespace sim;
namespace {
struct Discard : std::streambuf {
  int overflow(int ch) override { return ch; }
  std::streamsize xsputn(const char*, std::streamsize k) override { return k; }
};
typedef std::shared_ptr<cr::SolverIpopt> IpSolver;
struct Opt { double th_stop = 1e-9; size_t maxiter = 30; int mu = 0; };
IpSolver make(ProblemPtr p, const Opt& o) {
  rt::Lib lib;
  auto s = std::make_shared<cr::SolverIpopt>(p);
  s->setNumericIpoptOption("max_cpu_time", 1e15);
  s->setStringIpoptOption("sb", "yes");
  s->setStringIpoptOption("mu_strategy", o.mu ? "monotone" : "adaptive");
  s->set_th_stop(o.th_stop);
  return s;
}
int g_jumpy = 0;
Rng* g_jr = nullptr;
int64_t jump(int) {
  if (!g_jr) return 0;
  return g_jumpy == 1 ? (int64_t)g_jr->below(5000000000000ull) : g_jumpy == 2 ? -(int64_t)g_jr->below(100000000ull) : 1000;
}
struct Out { int outcome; std::string what; Report rep; };
Out run(cr::SolverIpopt& s, const Warm& w, const Opt& o) {
  Out r;
  bool b = false;
  r.outcome = R_FALSE;
  try {
    rt::Lib lib;
    b = s.solve(w.xs, w.us, o.maxiter, w.feasible);
    r.outcome = b ? R_TRUE : R_FALSE;
  } catch (const std::exception& e) {
    r.outcome = R_STD;
    r.what = e.what();
  } catch (const Abort&) {
    r.outcome = R_FOREIGN;
  }
  r.rep = snap(s);
  return r;
}
double maxabs(const MatrixXd& m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0.; }

// the claims of a return, recomputed
void check_solve(Ctx& c, const ProblemSpec& spec, const VectorXd& x0, const Warm& w, const Opt& o, const Out& out, bool hit, bool truth, Fresh& f) {
  const size_t T = f.p->get_T();
  const Report& r = out.rep;
  const auto& ms = f.p->get_runningModels();
  SIM_CHECK(c, r.xs.size() == T + 1 && r.us.size() == T, "shape", "Ipopt: %zu states and %zu controls for %zu nodes", r.xs.size(), r.us.size(), T);
  for (size_t t = 0; t <= T; t++) SIM_CHECK(c, r.xs[t].size() == spec.nx && r.xs[t].allFinite(), "shape", "Ipopt: state %zu is %s", t, str(r.xs[t]).c_str());
  for (size_t t = 0; t < T; t++) SIM_CHECK(c, r.us[t].size() == (Eigen::Index)ms[t]->get_nu() && r.us[t].allFinite(), "shape", "Ipopt: control %zu is %s", t, str(r.us[t]).c_str());
  SIM_CHECK(c, r.iter <= o.maxiter, "iterations", "Ipopt: %zu iterations, at most %zu were allowed", r.iter, o.maxiter);
  f.eval(r.xs, r.us, true);
  long double abscost = 0;
  for (auto& d : f.p->get_runningDatas()) abscost += std::fabs(d->cost);
  abscost += std::fabs(f.p->get_terminalData()->cost);
  double g0 = 1;
  bool startok = true;
  {
    // the objective's scale comes from the starting point
    Fresh f0;
    f0.p = make_problem(spec);
    f0.p->set_x0(x0);
    std::vector<VectorXd> xs = w.xs, us = w.us;
    if (xs.empty()) for (size_t t = 0; t <= T; t++) xs.push_back(f0.p->get_terminalModel()->get_state()->zero());
    if (us.empty()) for (auto& m : ms) us.push_back(VectorXd::Zero((Eigen::Index)m->get_nu()));
    f0.eval(xs, us, true);
    // Ipopt ends without a solution if these derivatives are not finite
    for (auto& d : f0.p->get_runningDatas()) startok = startok && std::isfinite(d->cost) && d->xnext.allFinite() && d->Lx.allFinite() && d->Lu.allFinite() && d->Fx.allFinite() && d->Fu.allFinite() && d->Lxx.allFinite() && d->Lxu.allFinite() && d->Luu.allFinite();
    { auto& d = f0.p->get_terminalData(); startok = startok && std::isfinite(d->cost) && d->Lx.allFinite() && d->Lxx.allFinite(); }
    for (auto& d : f0.p->get_runningDatas()) g0 = std::max(g0, std::max(maxabs(d->Lx), maxabs(d->Lu)));
    g0 = std::max(g0, maxabs(f0.p->get_terminalData()->Lx));
  }
  // (with bounds, Ipopt moves the final controls back into them by about 1e-8)
  bool bounded = false;
  for (auto& m : ms) bounded = bounded || m->get_has_control_limits();
  if ((out.outcome == R_TRUE && truth) || (out.outcome == R_FALSE && !hit && startok))
    SIM_CHECK(c, std::fabs(r.cost - f.cost) <= (bounded ? 1e-5 : 1e-9) * (double)(1 + abscost), "cost", "Ipopt reports cost %.17g, its trajectory has %.17g", r.cost, f.cost);
  if (out.outcome != R_TRUE || !truth) return;
  // feasible
  double fxmax = 1;
  for (auto& d : f.p->get_runningDatas()) fxmax = std::max(fxmax, maxabs(d->Fx));
  auto gp = gaps(*f.p, r.xs);
  for (size_t t = 0; t <= T; t++) SIM_CHECK(c, maxabs(gp[t]) <= 1e-4 * fxmax, "infeasible", "Ipopt claims success with a gap of %g at node %zu", maxabs(gp[t]), t);
  for (size_t t = 0; t < T; t++)
    if (ms[t]->get_has_control_limits())
      for (Eigen::Index i = 0; i < r.us[t].size(); i++) {
        double l = ms[t]->get_u_lb()[i], u = ms[t]->get_u_ub()[i], v = r.us[t][i];
        SIM_CHECK(c, v >= l - 1e-6 * (1 + std::fabs(l)) && v <= u + 1e-6 * (1 + std::fabs(u)), "bounds", "Ipopt: control %zu is %g, its bounds are %g and %g", t, v, l, u);
      }
  // stationary
  std::vector<VectorXd> lam(T + 1);
  double lmax = 1, lsum = 0;
  lam[T] = f.p->get_terminalData()->Lx;
  for (size_t t = T; t-- > 0;) {
    auto& d = f.p->get_runningDatas()[t];
    lam[t] = d->Lx + d->Fx.transpose() * lam[t + 1];
  }
  for (auto& l : lam) { lmax = std::max(lmax, maxabs(l)); lsum += l.cwiseAbs().sum(); }
  double tol = 20 * std::max(o.th_stop, 1e-6) * (1 + lsum) * (1 + g0 / 100) + 1e-9 * lmax;
  for (size_t t = 0; t < T; t++) {
    auto& d = f.p->get_runningDatas()[t];
    VectorXd g = d->Lu + d->Fu.transpose() * lam[t + 1];
    for (Eigen::Index i = 0; i < g.size(); i++) {
      double room = INFINITY;
      if (ms[t]->get_has_control_limits()) room = g[i] > 0 ? r.us[t][i] - ms[t]->get_u_lb()[i] : ms[t]->get_u_ub()[i] - r.us[t][i];
      double v = std::min(std::fabs(g[i]), std::isinf(room) || room > 1e10 ? INFINITY : std::fabs(g[i]) * std::max(room, 0.));
      SIM_CHECK(c, v <= tol, "not-stationary", "Ipopt claims success, but the gradient of control %zu is %g (distance to the bound %g, tolerance %g)", t, g[i], room, tol);
    }
  }
}
GenOpts gen_of(Rng& r) {
  GenOpts g;
  g.bounds = r.chance(0.35);
  g.lqr_only = r.chance(0.4);
  g.maxT = 4;
  return g;
}
void part_solve(Ctx& c) {
  Rng r = c.rng.fork(1);
  ProblemSpec spec = gen_problem(c, r, gen_of(r));
  // path constraints are not part of this interface
  rt::set_fill((int)r.below(rt::F_COUNT), r.u64());
  FaultCtl ctl;
  ProblemPtr pr;
  IpSolver sol;
  Opt o;
  o.th_stop = r.chance(0.5) ? 1e-9 : std::pow(10., r.uni(-9, -5));
  o.mu = r.chance(0.3);
  { rt::Lib lib; pr = make_problem(spec, &ctl); }
  sol = make(pr, o);
  VectorXd x0 = spec.x0;
  g_jr = nullptr;
  Rng jr(r.u64());
  int n = r.range(1, 4);
  c.trace("%s", spec.describe().c_str());
  for (int k = 0; k < n; k++) {
    Rng q = r.fork(1000 + (uint64_t)k);
    size_t T = spec.running.size();
    int edit = q.range(0, 5);
    uint64_t es = q.u64();
    int wk = q.range(0, 4);
    o.maxiter = (size_t)(q.chance(0.2) ? q.range(0, 3) : q.range(5, 40));
    size_t maxiter = o.maxiter;
    bool faulty = q.chance(0.6);
    int clock = q.range(0, 2);
    bool cj = clock && c.fault();
    if (k && c.op()) {
      // edit the problem
      Rng e(es);
      GenOpts go = gen_of(e);
      go.minT = go.maxT = 1;
      switch (edit) {
        case 0: {
          NodeSpec ns = gen_node(e, spec, go, false);
          ActionPtr m = make_one(ns, &ctl, 50);
          size_t i = e.below(T);
          { rt::Lib lib; pr->updateModel(i, m); }
          spec.running[i] = ns;
          c.trace("node %zu replaced", i);
          break;
        }
        case 1: {
          NodeSpec ns = gen_node(e, spec, go, false);
          ActionPtr m = make_one(ns, &ctl, 51);
          ADataPtr d;
          { rt::Lib lib; d = m->createData(); pr->circularAppend(m, d); }
          spec.running.erase(spec.running.begin());
          spec.running.push_back(ns);
          c.trace("node appended");
          break;
        }
        case 2: {
          NodeSpec ns = gen_node(e, spec, go, true);
          ActionPtr m = make_one(ns, &ctl, 52);
          { rt::Lib lib; std::vector<ActionPtr> a = pr->get_runningModels(); (void)a; pr->updateModel(T, m); }
          spec.terminal = ns;
          c.trace("terminal node replaced");
          break;
        }
        case 3: {
          spec.x0 = gen_x(e, spec);
          { rt::Lib lib; pr->set_x0(spec.x0); }
          c.trace("initial state %s", str(spec.x0).c_str());
          break;
        }
        case 4: {
          // another horizon
          std::vector<ActionPtr> ms;
          std::vector<NodeSpec> ns;
          size_t len = (size_t)e.range(1, 5);
          for (size_t i = 0; i < len; i++) { ns.push_back(gen_node(e, spec, go, false)); ms.push_back(make_one(ns.back(), &ctl, 60 + (int)i)); }
          { rt::Lib lib; pr->set_runningModels(ms); }
          spec.running = ns;
          c.trace("%zu new nodes", len);
          break;
        }
        default: break;
      }
      c.mark(10 + (uint64_t)edit);
      x0 = spec.x0;
      T = spec.running.size();
    }
    auto models = make_running(spec, nullptr);
    Rng wr = q.fork(3);
    Warm w = gen_warm(wr, spec, models, make_one(spec.terminal, nullptr, 0), spec.x0, wk, wr.chance(0.2) ? 3. : 1.);
    ctl.reset();
    FaultGen fg;
    // Ipopt takes its scaling from the first derivatives it sees, without
    // limits: with infinite or huge ones it may claim anything
    bool truth = q.fork(4).chance(0.7);
    fg.kinds = kAllKinds;
    if (!truth && q.fork(6).chance(0.6)) fg.kinds = {FK_INF_D, FK_NAN_D, FK_HUGE_D, FK_INF_D};
    if (truth) {
      fg.kinds.clear();
      for (int kd : kTruthKinds)
        if (kd != FK_INF_D) fg.kinds.push_back(kd);
    }
    fg.max = faulty ? 3 : 0;
    fg.range = (uint64_t)std::max<size_t>(8, (T + 1) * 40);
    Rng rf = q.fork(2);
    gen_faults(c, rf, ctl, fg, (int)T);
    if (!c.op()) continue;
    o.maxiter = maxiter;
    ctl.limit = (uint64_t)(maxiter + 2) * 400 * (T + 1) * 6;
    g_jumpy = clock;
    g_jr = cj ? &jr : nullptr;
    rt::g_clock.hook = jump;
    uint64_t th0 = ctl.fired_throw, fi0 = ctl.fired;
    Out a = run(*sol, w, o);
    rt::g_clock.hook = nullptr;
    g_jr = nullptr;
    bool threw = ctl.fired_throw > th0, hit = ctl.fired > fi0;
    if (cj) c.count(clock == 1 ? "fault.clock_ahead" : "fault.clock_back");
    c.trace("solve %d: warm start %d, at most %zu iterations: %s in %zu iterations, cost %.9g%s%s", k, wk, maxiter, a.outcome == R_TRUE ? "true" : a.outcome == R_FALSE ? "false" : a.what.c_str(), a.rep.iter, a.rep.cost, hit ? ", faults" : "", threw ? ", exceptions" : "");
    SIM_CHECK(c, a.outcome < R_STD || threw, "exception", "Ipopt: a solve without throwing models threw %s", a.what.c_str());
    Fresh f;
    f.p = make_problem(spec);
    check_solve(c, spec, spec.x0, w, o, a, hit, truth || !hit, f);
    if (!hit) {
      // a new solver on a new problem
      ProblemPtr p2;
      { rt::Lib lib; p2 = make_problem(spec, nullptr); }
      IpSolver s2 = make(p2, o);
      Out b = run(*s2, w, o);
      SIM_CHECK(c, a.outcome == b.outcome && a.rep.iter == b.rep.iter, "reuse", "Ipopt: solve %d returned %d after %zu iterations, a new solver %d after %zu", k, a.outcome, a.rep.iter, b.outcome, b.rep.iter);
      SIM_CHECK(c, same(a.rep.cost, b.rep.cost) && same(a.rep.xs, b.rep.xs) && same(a.rep.us, b.rep.us), "reuse", "Ipopt: solve %d ended with cost %.17g, a new solver with %.17g", k, a.rep.cost, b.rep.cost);
      bool convex = true;
      for (auto& ns : spec.running) convex = convex && ns.kind == K_LQR && ns.bounds == 0;
      convex = convex && spec.terminal.kind == K_LQR && !spec.so2;
      if (convex && maxiter >= 20 && wk < 4) {
        SIM_CHECK(c, a.outcome == R_TRUE, "not-solved", "Ipopt does not solve a linear-quadratic problem in %zu iterations", maxiter);
        c.count("lq_solved");
      }
    }
    c.count(a.outcome == R_TRUE ? "out.true" : a.outcome == R_FALSE ? "out.false" : "out.exception");
    if (hit) c.count("solves_with_faults");
    c.mark((uint64_t)a.outcome * 1000 + a.rep.iter * 4 + hit * 2 + threw);
    c.logd(a.rep.cost);
    for (auto& x : a.rep.us) c.logv(x);
    // the problem itself is fine afterwards
    ctl.reset();
    double v;
    { rt::Lib lib; v = pr->calc(a.rep.xs, a.rep.us); pr->calcDiff(a.rep.xs, a.rep.us); }
    SIM_CHECK(c, same(v, f.cost), "problem", "Ipopt left a problem whose cost is %.17g instead of %.17g", v, f.cost);
  }
}
// ---- the interface, asked by a simulated optimiser
struct Ref {
  std::vector<VectorXd> xs, us;          // the point
  double f = 0;
  VectorXd grad, g;
  MatrixXd jac, hess;
};
void reference(const ProblemSpec& spec, const std::vector<VectorXd>& base, const VectorXd& x, Ref& R) {
  ProblemPtr p = make_problem(spec);
  const size_t T = p->get_T();
  const Eigen::Index nd = spec.ndx;
  auto st = p->get_terminalModel()->get_state();
  const auto& ms = p->get_runningModels();
  R.xs.assign(T + 1, VectorXd::Zero(spec.nx));
  R.us.resize(T);
  std::vector<Eigen::Index> off(T + 1);
  std::vector<MatrixXd> J(T + 1);
  Eigen::Index k = 0;
  for (size_t t = 0; t <= T; t++) {
    off[t] = k;
    VectorXd dx = x.segment(k, nd);
    st->integrate(base[t], dx, R.xs[t]);
    MatrixXd tmp = MatrixXd::Zero(nd, nd);
    J[t] = MatrixXd::Zero(nd, nd);
    st->Jintegrate(base[t], dx, tmp, J[t], cr::second, cr::setto);
    k += nd;
    if (t < T) {
      Eigen::Index nu = (Eigen::Index)ms[t]->get_nu();
      R.us[t] = x.segment(k, nu);
      k += nu;
    }
  }
  R.f = p->calc(R.xs, R.us);
  p->calcDiff(R.xs, R.us);
  Eigen::Index m = (Eigen::Index)(T + 1) * nd;
  R.grad = VectorXd::Zero(k);
  R.g = VectorXd::Zero(m);
  R.jac = MatrixXd::Zero(m, k);
  R.hess = MatrixXd::Zero(k, k);
  for (size_t t = 0; t < T; t++) {
    auto& d = p->get_runningDatas()[t];
    Eigen::Index nu = (Eigen::Index)ms[t]->get_nu(), o = off[t], ou = o + nd, on = off[t + 1], row = (Eigen::Index)t * nd;
    R.grad.segment(o, nd) = J[t].transpose() * d->Lx;
    R.grad.segment(ou, nu) = d->Lu;
    VectorXd gap = VectorXd::Zero(nd);
    st->diff(d->xnext, R.xs[t + 1], gap);
    R.g.segment(row, nd) = gap;
    MatrixXd J1 = MatrixXd::Zero(nd, nd), J2 = J1;
    st->Jdiff(d->xnext, R.xs[t + 1], J1, J2, cr::both);
    R.jac.block(row, o, nd, nd) = J1 * d->Fx * J[t];
    if (nu) R.jac.block(row, ou, nd, nu) = J1 * d->Fu;
    R.jac.block(row, on, nd, nd) = J2 * J[t + 1];
    R.hess.block(o, o, nd, nd) = J[t].transpose() * d->Lxx * J[t];
    if (nu) {
      R.hess.block(ou, o, nu, nd) = (J[t].transpose() * d->Lxu).transpose();
      R.hess.block(ou, ou, nu, nu) = d->Luu;
    }
  }
  auto& d = p->get_terminalData();
  R.grad.segment(off[T], nd) = J[T].transpose() * d->Lx;
  R.hess.block(off[T], off[T], nd, nd) = J[T].transpose() * d->Lxx * J[T];
  VectorXd gap = VectorXd::Zero(nd);
  st->diff(R.xs[0], p->get_x0(), gap);
  R.g.tail(nd) = gap;
  MatrixXd J1 = MatrixXd::Zero(nd, nd), J2 = J1;
  st->Jdiff(R.xs[0], p->get_x0(), J1, J2, cr::both);
  R.jac.block(m - nd, 0, nd, nd) = J1 * J[0];
}
bool close(const MatrixXd& a, const MatrixXd& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (Eigen::Index i = 0; i < a.size(); i++) {
    double x = a.data()[i], y = b.data()[i];
    if (!(std::fabs(x - y) <= 1e-9 * (1 + std::fabs(y))) && !(std::isnan(x) && std::isnan(y))) return false;
  }
  return true;
}
void part_iface(Ctx& c) {
  Rng r = c.rng.fork(2);
  ProblemSpec spec = gen_problem(c, r, gen_of(r));
  rt::set_fill((int)r.below(rt::F_COUNT), r.u64());
  FaultCtl ctl;
  ProblemPtr pr;
  Ipopt::SmartPtr<cr::IpoptInterface> I;
  { rt::Lib lib; pr = make_problem(spec, &ctl); I = new cr::IpoptInterface(pr); }
  FaultGen fg;
  fg.kinds = kAllKinds;
  fg.max = r.chance(0.5) ? 0 : 4;
  fg.range = 100;
  Rng rf = r.fork(2);
  gen_faults(c, rf, ctl, fg, (int)spec.running.size());
  std::vector<VectorXd> base = I->get_xs(), ub = I->get_us();
  c.trace("%s", spec.describe().c_str());
  VectorXd x;
  bool havex = false;
  Ref R;
  int n = r.range(3, 25);
  for (int k = 0; k < n; k++) {
    Rng q = r.fork(1000 + (uint64_t)k);
    int op = q.range(0, 11);
    bool newx = q.chance(0.4);
    double of = q.chance(0.2) ? 0. : q.chance(0.3) ? 1. : q.uni(1e-3, 2);
    uint64_t seed = q.u64();
    int edit = q.range(0, 3);
    double garbage = q.chance(0.5) ? NAN : q.uni(-10, 10);
    if (!c.op()) continue;
    size_t T = spec.running.size();
    const Eigen::Index nd = spec.ndx;
    Eigen::Index nvar = nd, m = (Eigen::Index)(T + 1) * nd;
    for (auto& mo : pr->get_runningModels()) nvar += nd + (Eigen::Index)mo->get_nu();
    Rng e(seed);
    if (newx || !havex || x.size() != nvar) {
      x = gen_u(e, (int)nvar, 1.);
      reference(spec, base, x, R);
      havex = true;
    }
    static const char* ON[] = {"eval_f", "eval_f", "eval_grad_f", "eval_grad_f", "eval_g", "eval_jac_g", "eval_h", "eval_h", "set_xs", "edit", "finalize_solution", "info"};
    c.trace("%s%s", ON[op], newx ? " at a new point" : "");
    c.mark((uint64_t)op * 2 + newx);
    uint64_t f0 = ctl.fired, ft0 = ctl.fired_throw;
    bool threw = false;
    auto call = [&](auto&& fn) {
      bool ok = false;
      try { rt::Lib lib; ok = fn(); } catch (const std::exception&) { threw = true; } catch (const Abort&) { threw = true; }
      SIM_CHECK(c, !threw || ctl.fired > f0, "exception", "%s threw without a fault", ON[op]);
      SIM_CHECK(c, threw || !ok || ctl.fired_throw == ft0, "swallowed", "%s succeeds though a model threw", ON[op]);
      bool hit = ctl.fired > f0;
      if (!threw && !hit) SIM_CHECK(c, ok, "refused", "%s returned false", ON[op]);
      if (hit) c.count(threw ? "calls_that_threw" : "calls_with_faults");
      return !threw && !hit;
    };
    Ipopt::Index ni, mi, nj, nh;
    Ipopt::TNLP::IndexStyleEnum style;
    auto info = [&]() {
      { rt::Lib lib; I->get_nlp_info(ni, mi, nj, nh, style); }
      SIM_CHECK(c, ni == nvar && mi == m && style == Ipopt::TNLP::C_STYLE, "info", "the interface has %d variables and %d constraints, expected %d and %d", ni, mi, (int)nvar, (int)m);
      SIM_CHECK(c, (Eigen::Index)I->get_nvar() == nvar && (Eigen::Index)I->get_nconst() == m, "info", "the interface counts %zu variables and %zu constraints", I->get_nvar(), I->get_nconst());
    };
    switch (op) {
      case 0: case 1: {
        double v = garbage;
        if (call([&] { return I->eval_f((int)nvar, x.data(), newx, v); }))
          SIM_CHECK(c, close(MatrixXd::Constant(1, 1, v), MatrixXd::Constant(1, 1, R.f)), "objective", "eval_f gives %.17g, the cost is %.17g", v, R.f);
        break;
      }
      case 2: case 3: {
        VectorXd g = VectorXd::Constant(nvar, garbage);
        if (call([&] { return I->eval_grad_f((int)nvar, x.data(), newx, g.data()); }))
          SIM_CHECK(c, close(g, R.grad), "gradient", "eval_grad_f gives %s instead of %s", str(g).c_str(), str(R.grad).c_str());
        break;
      }
      case 4: {
        VectorXd g = VectorXd::Constant(m, garbage);
        if (call([&] { return I->eval_g((int)nvar, x.data(), newx, (int)m, g.data()); }))
          SIM_CHECK(c, close(g, R.g), "constraints", "eval_g gives %s instead of %s", str(g).c_str(), str(R.g).c_str());
        break;
      }
      case 5: {
        info();
        std::vector<Ipopt::Index> row((size_t)nj + 1, -7), col((size_t)nj + 1, -7);
        { rt::Lib lib; I->eval_jac_g((int)nvar, nullptr, false, (int)m, nj, row.data(), col.data(), nullptr); }
        VectorXd v = VectorXd::Constant(nj + 1, garbage);
        if (call([&] { return I->eval_jac_g((int)nvar, x.data(), newx, (int)m, nj, nullptr, nullptr, v.data()); })) {
          SIM_CHECK(c, row[(size_t)nj] == -7 && col[(size_t)nj] == -7 && same(v[nj], garbage), "overrun", "eval_jac_g writes more than %d entries", nj);
          MatrixXd J = MatrixXd::Zero(m, nvar);
          for (int i = 0; i < nj; i++) {
            SIM_CHECK(c, row[(size_t)i] >= 0 && row[(size_t)i] < m && col[(size_t)i] >= 0 && col[(size_t)i] < nvar, "jacobian", "entry %d of the Jacobian is at (%d,%d)", i, row[(size_t)i], col[(size_t)i]);
            J(row[(size_t)i], col[(size_t)i]) += v[i];
          }
          SIM_CHECK(c, close(J, R.jac), "jacobian", "eval_jac_g gives another Jacobian (largest difference %g)", maxabs(J - R.jac));
        }
        break;
      }
      case 6: case 7: {
        info();
        std::vector<Ipopt::Index> row((size_t)nh + 1, -7), col((size_t)nh + 1, -7);
        { rt::Lib lib; I->eval_h((int)nvar, nullptr, false, of, (int)m, nullptr, false, nh, row.data(), col.data(), nullptr); }
        VectorXd v = VectorXd::Constant(nh + 1, garbage), lam = VectorXd::Zero(m);
        if (call([&] { return I->eval_h((int)nvar, x.data(), newx, of, (int)m, lam.data(), true, nh, nullptr, nullptr, v.data()); })) {
          SIM_CHECK(c, row[(size_t)nh] == -7 && col[(size_t)nh] == -7 && same(v[nh], garbage), "overrun", "eval_h writes more than %d entries", nh);
          MatrixXd H = MatrixXd::Zero(nvar, nvar);
          for (int i = 0; i < nh; i++) {
            SIM_CHECK(c, row[(size_t)i] >= 0 && row[(size_t)i] < nvar && col[(size_t)i] >= 0 && col[(size_t)i] <= row[(size_t)i], "hessian", "entry %d of the Hessian is at (%d,%d)", i, row[(size_t)i], col[(size_t)i]);
            H(row[(size_t)i], col[(size_t)i]) += v[i];
          }
          MatrixXd L = of * R.hess;
          L = MatrixXd(L.triangularView<Eigen::Lower>());
          SIM_CHECK(c, close(H, L), "hessian", "eval_h gives another Hessian for an objective factor of %g (largest difference %g)", of, maxabs(H - L));
        }
        break;
      }
      case 8: {
        base.clear();
        ub.clear();
        for (size_t t = 0; t <= T; t++) base.push_back(gen_x(e, spec));
        for (auto& mo : pr->get_runningModels()) ub.push_back(gen_u(e, (int)mo->get_nu()));
        { rt::Lib lib; I->set_xs(base); I->set_us(ub); }
        havex = false;
        break;
      }
      case 9: {
        Rng g(seed);
        GenOpts go = gen_of(g);
        if (edit == 0) { spec.x0 = gen_x(g, spec); rt::Lib lib; pr->set_x0(spec.x0); }
        else if (edit == 1) {
          NodeSpec ns = gen_node(g, spec, go, false);
          size_t i = g.below(T);
          ActionPtr mo = make_one(ns, &ctl, 50);
          { rt::Lib lib; pr->updateModel(i, mo); }
          spec.running[i] = ns;
        } else {
          std::vector<NodeSpec> ns;
          std::vector<ActionPtr> ms;
          size_t len = edit == 2 ? T : (size_t)g.range(1, 5);
          for (size_t i = 0; i < len; i++) { ns.push_back(gen_node(g, spec, go, false)); ms.push_back(make_one(ns.back(), &ctl, 60 + (int)i)); }
          try { rt::Lib lib; pr->set_runningModels(ms); } catch (const std::exception&) {} catch (const Abort&) {}
          spec.running = ns;
        }
        { rt::Lib lib; I->resizeData(); }
        // the interface's point is only defined by set_xs and set_us
        base.clear();
        ub.clear();
        for (size_t t = 0; t <= spec.running.size(); t++) base.push_back(gen_x(e, spec));
        for (auto& mo : pr->get_runningModels()) ub.push_back(gen_u(e, (int)mo->get_nu()));
        { rt::Lib lib; I->set_xs(base); I->set_us(ub); }
        havex = false;
        break;
      }
      case 10: {
        double cost = q.uni(0, 10);
        { rt::Lib lib; I->finalize_solution(Ipopt::SUCCESS, (int)nvar, x.data(), nullptr, nullptr, (int)m, nullptr, nullptr, cost, nullptr, nullptr); }
        SIM_CHECK(c, same(I->get_cost(), cost), "solution", "the final cost is %.17g instead of %.17g", I->get_cost(), cost);
        SIM_CHECK(c, same(I->get_us(), R.us), "solution", "finalize_solution leaves other controls");
        for (size_t t = 0; t <= T; t++) SIM_CHECK(c, close(I->get_xs()[t], R.xs[t]), "solution", "finalize_solution leaves another state %zu", t);
        base = I->get_xs();
        ub = I->get_us();
        havex = false;
        break;
      }
      default: {
        info();
        VectorXd xl = VectorXd::Constant(nvar, garbage), xu = xl, gl = VectorXd::Constant(m, garbage), gu = gl, s = xl;
        { rt::Lib lib; I->get_bounds_info((int)nvar, xl.data(), xu.data(), (int)m, gl.data(), gu.data()); I->get_starting_point((int)nvar, true, s.data(), false, nullptr, nullptr, (int)m, false, nullptr); }
        SIM_CHECK(c, gl.isZero(0) && gu.isZero(0), "info", "the constraints are not equalities");
        Eigen::Index j = 0;
        for (size_t t = 0; t <= T; t++) {
          for (Eigen::Index i = 0; i < nd; i++, j++) {
            SIM_CHECK(c, xl[j] <= -1e19 && xu[j] >= 1e19, "info", "state %zu is bounded", t);
            SIM_CHECK(c, s[j] == 0, "info", "the starting point of state %zu is no zero increment", t);
          }
          if (t == T) break;
          auto& mo = pr->get_runningModels()[t];
          for (Eigen::Index i = 0; i < (Eigen::Index)mo->get_nu(); i++, j++) {
            if (mo->get_has_control_limits()) SIM_CHECK(c, same(xl[j], mo->get_u_lb()[i]) && same(xu[j], mo->get_u_ub()[i]), "info", "control %zu has other bounds", t);
            else SIM_CHECK(c, xl[j] <= -1e19 && xu[j] >= 1e19, "info", "control %zu is bounded", t);
            SIM_CHECK(c, same(s[j], ub[t][i]), "info", "the starting point of control %zu is %g instead of %g", t, s[j], ub[t][i]);
          }
        }
        break;
      }
    }
    c.log((uint64_t)op);
    c.logd(R.f);
    c.count(std::string("op.").append(ON[op]).c_str());
  }
}
void c16(Ctx& c) {
  Discard d;
  // Ipopt prints through C streams
  stdout = fopen(getenv("SIM_IPOUT") ? getenv("SIM_IPOUT") : "/dev/null", "w");
  std::streambuf *oo = std::cout.rdbuf(&d), *oe = std::cerr.rdbuf(&d);
  if (c.rng.fork(5).chance(0.5)) part_solve(c); else part_iface(c);
  std::cout.rdbuf(oo);
  std::cerr.rdbuf(oe);
}
Register r_("C16", c16);
}  // namespace
