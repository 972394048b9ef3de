// C04, C05, C06: one solve under model faults, watched from inside.
#include <cmath>
#include <cstring>

#include <Eigen/SVD>

#include "common/refdir.hpp"
#include "common/solve.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
#include "crocoddyl/core/solvers/fddp.hpp"
#include "crocoddyl/core/solvers/intro.hpp"
#include "crocoddyl/core/utils/exception.hpp"
using namespace sim;
namespace {
struct Trial {
  bool ok = false, hurt = false;
  double alpha = 0, cost = 0, abscost = 0, hfeas = 0;
  std::vector<VectorXd> xs, us;
};
enum Mode { M_BOUND = 4, M_TRUTH = 5, M_LEAK = 6 };

struct Watch : Monitor {
  Ctx& c;
  Mode mode;
  int kind;
  FaultCtl& ctl;
  ProblemSpec spec;
  SolverOpts opts;
  Fresh fresh;
  bool linear = false, faulty_values = false;
  size_t T = 0;
  // budget
  uint64_t dirs = 0, dirs_limit = ~0ull;
  // history
  std::vector<VectorXd> cxs, cus;  // the candidate
  bool cfeas = false, started = false, accepted_once = false;
  double ccost = 0;
  bool cost_known = false;
  bool cand_hurt = false;
  std::vector<char> diff_hurt;
  bool was_feas = false;           // before the current iteration's step
  double pre_cost = 0, pre_preg = 0, pre_hfeas = 0;
  bool pre_cost_ok = false;
  RefDir ref, ref0;
  bool ref_ok = false, kkt_ok = false;
  double kkt_stop = 0;
  Trial last;                      // last trial of this iteration
  Trial best;                      // last successful trial of this iteration
  uint64_t iters = 0, accepts = 0, fails = 0, rejects = 0;
  bool last_true_ok = false;
  double last_stop_ref = NAN;
  bool in_iter = false;
  std::vector<VectorXd> bxs, bus;  // before an operation
  bool bfeas = false;
  double bcost = 0;
  Watch(Ctx& cc, Mode m, int k, FaultCtl& f, const ProblemSpec& s, const SolverOpts& o) : c(cc), mode(m), kind(k), ctl(f), spec(s), opts(o) {
    fresh.p = make_problem(s);
    T = s.running.size();
    diff_hurt.assign(T + 1, 0);
    linear = true;
    for (auto& n : s.running) if (n.kind != K_LQR) linear = false;
    if (s.terminal.kind != K_LQR) linear = false;
  }
  bool same_cand(cr::SolverAbstract& s, const std::vector<VectorXd>& xs, const std::vector<VectorXd>& us) { return same(s.get_xs(), xs) && same(s.get_us(), us); }
  void before(cr::SolverAbstract& s) { bxs = s.get_xs(); bus = s.get_us(); bfeas = s.get_is_feasible(); bcost = s.get_cost(); }
  void unchanged(cr::SolverAbstract& s, const char* what, bool cost) {
    if (mode != M_LEAK) return;
    SIM_CHECK(c, same_cand(s, bxs, bus), "candidate-leak", "%s: %s changed the candidate trajectory", solver_name(kind), what);
    SIM_CHECK(c, s.get_is_feasible() == bfeas, "candidate-leak", "%s: %s changed the feasibility flag", solver_name(kind), what);
    if (cost) SIM_CHECK(c, same(s.get_cost(), bcost), "candidate-leak", "%s: %s changed the candidate's cost from %.17g to %.17g", solver_name(kind), what, bcost, s.get_cost());
  }
  // the line search reads the gaps and the policy: neither may change while
  // trials are made
  std::vector<VectorXd> sfs, sk;
  std::vector<cr::MathBaseTpl<double>::MatrixXsRowMajor> sK;
  bool have_policy = false;
  void keep_policy(cr::SolverAbstract& s) {
    have_policy = false;
    if (mode != M_LEAK) return;
    auto* d = dynamic_cast<cr::SolverDDP*>(&s);
    if (!d) return;
    sfs = s.get_fs();
    sk = d->get_k();
    sK = d->get_K();
    have_policy = true;
  }
  void check_policy(cr::SolverAbstract& s, const char* when) {
    if (!have_policy) return;
    auto& d = dynamic_cast<cr::SolverDDP&>(s);
    SIM_CHECK(c, same(s.get_fs(), sfs), "gap-leak", "%s iteration %zu: the gaps of the candidate changed during the line search (%s)", solver_name(kind), s.get_iter(), when);
    bool ok = same(d.get_k(), sk) && d.get_K().size() == sK.size();
    for (size_t t = 0; ok && t < sK.size(); t++) ok = sK[t].rows() == d.get_K()[t].rows() && sK[t].cols() == d.get_K()[t].cols() && (sK[t].size() == 0 || !std::memcmp(sK[t].data(), d.get_K()[t].data(), sizeof(double) * (size_t)sK[t].size()));
    SIM_CHECK(c, ok, "policy-leak", "%s iteration %zu: the policy changed during the line search (%s)", solver_name(kind), s.get_iter(), when);
  }
  void check_sane(cr::SolverAbstract& s) {
    SIM_CHECK(c, std::isfinite(s.get_cost()) && s.get_cost() < 1e30, "non-finite-step", "%s iteration %zu: a trial with cost %g was accepted", solver_name(kind), s.get_iter(), s.get_cost());
    SIM_CHECK(c, all_finite(s.get_xs()) && all_finite(s.get_us()), "non-finite-step", "%s iteration %zu: a trial that is not finite was accepted", solver_name(kind), s.get_iter());
  }
  void before_dir(cr::SolverAbstract& s, bool recalc) override {
    check_policy(s, "at its end");
    have_policy = false;
    if (++dirs > dirs_limit) rt::fatal("nonterm", "%s computed %llu directions with maxiter %zu", solver_name(kind), (unsigned long long)dirs, opts.maxiter);
    c.trace("  direction%s preg=%g", recalc ? " with derivatives" : "", s.get_preg());
    if (!started) {
      started = true;
      cxs = s.get_xs();
      cus = s.get_us();
      cfeas = s.get_is_feasible();
    } else if (mode == M_LEAK) {
      SIM_CHECK(c, same_cand(s, cxs, cus), "candidate-leak", "%s: the candidate changed between two iterations without an accepted trial", solver_name(kind));
    }
    before(s);
    ctl.rec.clear();
    last = Trial();
    best = Trial();
    ref_ok = kkt_ok = false;
  }
  void absorb_dir() {
    bool calc = false, hurt = false;
    for (auto& e : ctl.rec) {
      if (e.site == SITE_DIFF && (size_t)e.node <= T) diff_hurt[(size_t)e.node] = e.value_fault;
      if (e.site == SITE_CALC) { calc = true; hurt |= e.value_fault; }
    }
    if (calc) cand_hurt = hurt;
  }
  void dir_failed(cr::SolverAbstract& s, bool) override {
    fails++;
    const bool hurt_before = cand_hurt;
    absorb_dir();
    cand_hurt |= hurt_before;
    unchanged(s, "a failed direction", false);
    c.trace("  direction failed");
  }
  void after_dir(cr::SolverAbstract& s, bool) override {
    absorb_dir();
    unchanged(s, "a direction", false);
    keep_policy(s);
    was_feas = s.get_is_feasible();
    pxs = s.get_xs();
    pus = s.get_us();
    pre_cost = s.get_cost();
    pre_preg = s.get_preg();
    pre_hfeas = s.get_hfeas();
    bool hurt = cand_hurt;
    for (char h : diff_hurt) hurt |= h;
    pre_cost_ok = !cand_hurt;
    if (mode == M_BOUND) return;
    if (!all_finite(s.get_xs()) || !all_finite(s.get_us())) return;
    fresh.eval(s.get_xs(), s.get_us(), true);
    if (mode == M_TRUTH && !hurt) {
      // the derivatives in use are those of the candidate
      auto& ds = s.get_problem()->get_runningDatas();
      for (size_t t = 0; t <= T; t++) {
        std::string d = diff_data(t < T ? *ds[t] : *s.get_problem()->get_terminalData(), t < T ? *fresh.p->get_runningDatas()[t] : *fresh.p->get_terminalData(), t < T ? 6 : 2);
        SIM_CHECK(c, d.empty(), "stale-derivatives", "%s iteration %zu: a direction was computed from derivatives that are not the candidate's: node %zu: %s", solver_name(kind), s.get_iter(), t, d.c_str());
      }
      check_feas(s);
    }
    if (hurt) return;
    RefIn in;
    in.xs = s.get_xs();
    in.us = s.get_us();
    in.feasible = was_feas;
    in.preg = pre_preg;
    in.box = kind == S_BOXDDP || kind == S_BOXFDDP;
    in.equality = kind == S_INTRO;
    if (kind == S_KKT) kkt_stop = ref_kkt_stop(*fresh.p, in, &kkt_ok);
    else {
      ref = ref_direction(*fresh.p, in);
      ref_ok = ref.ok;
    }
  }
  double norm_of(const std::vector<VectorXd>& v) {
    double r = 0;
    for (auto& x : v) {
      if (!x.size()) continue;
      if (opts.feasnorm) r += x.lpNorm<1>();
      else r = std::max(r, x.lpNorm<Eigen::Infinity>());
    }
    return r;
  }
  std::vector<VectorXd> hvec() {
    std::vector<VectorXd> v;
    for (size_t t = 0; t < T; t++)
      if (fresh.p->get_runningModels()[t]->get_nh()) v.push_back(fresh.p->get_runningDatas()[t]->h.head((Eigen::Index)fresh.p->get_runningModels()[t]->get_nh()));
    auto& tm = fresh.p->get_terminalModel();
    if (tm->get_nh_T()) v.push_back(fresh.p->get_terminalData()->h.head((Eigen::Index)tm->get_nh_T()));
    return v;
  }
  std::vector<VectorXd> gvec() {
    std::vector<VectorXd> v;
    for (size_t t = 0; t <= T; t++) {
      auto& m = t < T ? fresh.p->get_runningModels()[t] : fresh.p->get_terminalModel();
      auto& d = t < T ? fresh.p->get_runningDatas()[t] : fresh.p->get_terminalData();
      size_t ng = t < T ? m->get_ng() : m->get_ng_T();
      if (!ng) continue;
      VectorXd e((Eigen::Index)ng);
      for (Eigen::Index i = 0; i < e.size(); i++) e[i] = std::max(0., std::max(m->get_g_lb()[i] - d->g[i], d->g[i] - m->get_g_ub()[i]));
      v.push_back(e);
    }
    return v;
  }
  void near(cr::SolverAbstract& s, const char* what, double got, double want) {
    SIM_CHECK(c, std::fabs(got - want) <= 1e-9 * (1 + std::fabs(want)), "feasibility-measure", "%s iteration %zu: %s is %.17g, its norm over the candidate is %.17g (%s)", solver_name(kind), s.get_iter(), what, got, want, opts.feasnorm ? "L1" : "LInf");
  }
  void check_feas(cr::SolverAbstract& s) {
    if (kind == S_KKT) return;
    near(s, "dynamic infeasibility", s.get_ffeas(), norm_of(gaps(*fresh.p, s.get_xs())));
    near(s, "equality infeasibility", s.get_hfeas(), norm_of(hvec()));
    near(s, "inequality infeasibility", s.get_gfeas(), norm_of(gvec()));
  }
  void before_try(cr::SolverAbstract& s, double) override {
    check_policy(s, "between trials");
    before(s);
    ctl.rec.clear();
    last = Trial();
  }
  void try_failed(cr::SolverAbstract& s, double a) override {
    rejects++;
    unchanged(s, "a failed trial", true);
    last = Trial();
    last.alpha = a;
    c.trace("  trial %g failed", a);
  }
  void after_try(cr::SolverAbstract& s, double a) override {
    unchanged(s, "a trial", true);
    last = Trial();
    last.alpha = a;
    last.xs.resize(T + 1);
    last.us.resize(T);
    size_t seen = 0;
    std::vector<char> got(T + 1, 0);
    for (auto& e : ctl.rec) {
      if (e.site != SITE_CALC || (size_t)e.node > T) continue;
      size_t t = (size_t)e.node;
      if (!got[t]) seen++;
      got[t] = 1;
      last.xs[t] = e.x;
      if (t < T) last.us[t] = e.u;
      last.cost += e.cost;
      last.abscost += std::fabs(e.cost);
      last.hurt |= e.value_fault;
      // what a solver can see of it is finite and not huge
    }
    last.ok = seen == T + 1;
    if (mode != M_BOUND && !last.hurt) SIM_CHECK(c, last.ok, "partial-trial", "%s: a trial step succeeded after evaluating %zu of %zu nodes", solver_name(kind), seen, T + 1);
    // hurt nodes with nu = 0 may be evaluated without a control
    for (size_t t = 0; t < T; t++) if (!last.us[t].size()) last.us[t] = VectorXd(0);
    if (last.ok) best = last;
    c.trace("  trial %g: cost %.9g", a, last.cost);
  }
  // called at every callback
  void at_callback(cr::SolverAbstract& s) {
    SIM_CHECK(c, s.get_iter() == iters, "iteration-count", "%s: callback number %llu reports iteration %zu", solver_name(kind), (unsigned long long)iters, s.get_iter());
    iters++;
    SIM_CHECK(c, iters <= opts.maxiter, "iteration-count", "%s: more iterations than maxiter %zu", solver_name(kind), opts.maxiter);
    if (mode == M_BOUND) return;
    check_policy(s, "at the callback");
    const bool kept = same_cand(s, cxs, cus);
    const bool taken = last.ok && same_cand(s, last.xs, last.us);
    if (!kept && !taken) {
      c.violation("candidate-leak", "%s iteration %zu: the candidate is neither the previous one nor the completely evaluated last trial (step %g%s)", solver_name(kind), s.get_iter(), last.alpha, last.ok ? "" : ", which failed");
    }
    // a trial that equals the candidate may have been accepted: no difference
    const bool acc = taken && !(kept && s.get_is_feasible() == cfeas && same(s.get_cost(), pre_cost));
    c.mark(mix((uint64_t)acc * 64 + (uint64_t)std::lround(-std::log2(std::max(last.alpha, 1e-9))), (uint64_t)s.get_is_feasible()));
    if (acc) {
      accepts++;
      c.count("accepted");
      check_sane(s);
      if (mode == M_LEAK) check_acceptance(s);
      accepted_once = true;
      cxs = s.get_xs();
      cus = s.get_us();
      cand_hurt = last.hurt;
    } else {
      c.count("no_step");
      if (mode == M_LEAK) {
        SIM_CHECK(c, s.get_is_feasible() == cfeas, "candidate-leak", "%s iteration %zu: the feasibility flag changed without an accepted trial", solver_name(kind), s.get_iter());
        SIM_CHECK(c, same(s.get_cost(), pre_cost), "candidate-leak", "%s iteration %zu: the cost changed from %.17g to %.17g without an accepted trial", solver_name(kind), s.get_iter(), pre_cost, s.get_cost());
      }
    }
    cfeas = s.get_is_feasible();
    ccost = s.get_cost();
    cost_known = true;
    if (mode == M_TRUTH) check_truth(s, acc, true);
  }
  void check_acceptance(cr::SolverAbstract& s) {
    if (!last.hurt) SIM_CHECK(c, std::fabs(s.get_cost() - last.cost) <= 1e-12 * (last.abscost + 1e-300), "candidate-leak", "%s iteration %zu: the accepted trial evaluated to cost %.17g but %.17g is reported", solver_name(kind), s.get_iter(), last.cost, s.get_cost());
    if (!was_feas || !pre_cost_ok || last.hurt) return;
    double thg = opts.th_grad;
    if (kind == S_KKT || kind == S_INTRO) {
      double d0 = s.get_d()[0], d1 = s.get_d()[1], a = last.alpha, exp = a * (d0 + 0.5 * a * d1), dv = pre_cost - last.cost;
      double acc = opts.th_acc, eps = 1e-12 * (std::fabs(pre_cost) + last.abscost + std::fabs(d0) + std::fabs(d1));
      const char* rule = "cost";
      if (kind == S_INTRO) {
        auto& q = dynamic_cast<cr::SolverIntro&>(s);
        double df = pre_hfeas - s.get_hfeas();
        double pe = exp + a * q.get_upsilon() * df;
        eps += 1e-12 * q.get_upsilon() * (pre_hfeas + s.get_hfeas());
        if (std::fabs(pe) <= eps) return;
        if (pe < 0) { rule = "cost (ascent)"; acc = q.get_th_acceptnegstep(); }
        else { rule = "merit"; dv += q.get_upsilon() * df; exp = pe; }
      } else thg = 1e-12;
      if ((kind == S_KKT ? d0 : std::fabs(d0)) < thg * (1 + 1e-9)) { c.count("accepted_at_gradient_threshold"); return; }
      c.count(kind == S_KKT ? "probe.kkt_margin" : "probe.merit_margin");
      SIM_CHECK(c, dv >= acc * exp - eps, "acceptance", "%s iteration %zu: a step %g from a feasible candidate was accepted although the %s decreased by %.17g only (expected %.17g, from %.17g)", solver_name(kind), s.get_iter(), a, rule, dv, exp, pre_cost);
      return;
    }
    double d0 = s.get_d()[0], d1 = s.get_d()[1], a = last.alpha;
    if (std::fabs(d0) < thg * (1 + 1e-9)) { c.count("accepted_at_gradient_threshold"); return; }
    double exp = a * (d0 + 0.5 * a * d1), dv = pre_cost - s.get_cost();
    SIM_CHECK(c, exp >= 0 && dv >= opts.th_acc * exp - 1e-13 * (std::fabs(pre_cost) + std::fabs(s.get_cost())), "acceptance", "%s iteration %zu: a step %g from a feasible candidate was accepted although the cost went from %.17g to %.17g (expected decrease %g)", solver_name(kind), s.get_iter(), a, pre_cost, s.get_cost(), exp);
  }
  void check_truth(cr::SolverAbstract& s, bool acc, bool at_cb) {
    const auto &xs = s.get_xs(), &us = s.get_us();
    const char* nm = solver_name(kind);
    SIM_CHECK(c, xs.size() == T + 1 && us.size() == T, "shape", "%s: %zu states and %zu controls for a horizon of %zu", nm, xs.size(), us.size(), T);
    for (size_t t = 0; t < T; t++) SIM_CHECK(c, (size_t)us[t].size() == fresh.p->get_runningModels()[t]->get_nu(), "shape", "%s: control %zu has dimension %d", nm, t, (int)us[t].size());
    for (size_t t = 0; t <= T; t++) SIM_CHECK(c, xs[t].size() == spec.nx, "shape", "%s: state %zu has dimension %d", nm, t, (int)xs[t].size());
    SIM_CHECK(c, all_finite(xs) && all_finite(us), "non-finite", "%s iteration %zu: the candidate is not finite", nm, s.get_iter());
    fresh.eval(xs, us, false);
    if (!cand_hurt) {
      double ab = 0;
      for (auto& d : fresh.p->get_runningDatas()) ab += std::fabs(d->cost);
      ab += std::fabs(fresh.p->get_terminalData()->cost);
      SIM_CHECK(c, std::fabs(s.get_cost() - fresh.cost) <= 1e-12 * (ab + 1e-300), "cost", "%s iteration %zu: the reported cost is %.17g, the candidate's cost is %.17g", nm, s.get_iter(), s.get_cost(), fresh.cost);
    }
    if (accepted_once && s.get_is_feasible() && !cand_hurt) {
      auto f = gaps(*fresh.p, xs);
      double worst = 0;
      size_t wt = 0;
      for (size_t t = 0; t <= T; t++) {
        double g = f[t].lpNorm<Eigen::Infinity>() / (1 + xs[t].lpNorm<Eigen::Infinity>());
        if (g > worst) { worst = g; wt = t; }
      }
      double tol = kind == S_KKT ? 1e-6 : 1e-10;
      if (worst > tol) {
        if (kind == S_KKT) c.finding("kkt-feasible-flag", "feasible-flag", "KKT iteration %zu: the candidate is flagged feasible but its gap at node %zu is %g", s.get_iter(), wt, worst);
        else c.violation("feasible-flag", "%s iteration %zu: the candidate is flagged feasible but its gap at node %zu is %g", nm, s.get_iter(), wt, worst);
      }
    }
    if (acc && last.alpha == 1. && kind != S_KKT) SIM_CHECK(c, s.get_is_feasible(), "feasible-flag", "%s iteration %zu: a full step was accepted but the candidate is flagged infeasible", nm, s.get_iter());
    if (at_cb && last.ok && !last.hurt && pre_cost_ok) {
      // the decreases and the merit that go with the last trial
      auto part = [&](const char* what, double got, double want, double scale) {
        SIM_CHECK(c, !std::isfinite(want) || !std::isfinite(scale) || std::fabs(got - want) <= 1e-11 * (scale + 1e-300), "progress", "%s iteration %zu: the reported %s is %.17g instead of %.17g (step %g%s)", nm, s.get_iter(), what, got, want, last.alpha, acc ? "" : ", not taken");
      };
      double d0 = s.get_d()[0], d1 = s.get_d()[1], a = last.alpha, exp = a * (d0 + 0.5 * a * d1), dv = pre_cost - last.cost;
      double se = a * std::fabs(d0) + a * a * std::fabs(d1), sv = std::fabs(pre_cost) + last.abscost;
      part("decrease", s.get_dV(), dv, sv);
      part("expected decrease", s.get_dVexp(), exp, se);
      if (kind == S_INTRO && acc) {
        double up = dynamic_cast<cr::SolverIntro&>(s).get_upsilon(), h = s.get_hfeas();
        part("change of the infeasibility", s.get_dfeas(), pre_hfeas - h, pre_hfeas + h);
        part("decrease of the merit", s.get_dPhi(), dv + up * (pre_hfeas - h), sv + up * (pre_hfeas + h));
        part("expected decrease of the merit", s.get_dPhiexp(), exp + a * up * (pre_hfeas - h), se + up * (pre_hfeas + h));
        part("merit", s.get_merit(), s.get_cost() + up * h, sv + up * h);
      }
    }
    if (kind == S_INTRO && at_cb && !cand_hurt) near(s, "equality infeasibility", s.get_hfeas(), norm_of(hvec()));
    if ((kind == S_BOXDDP || kind == S_BOXFDDP) && accepted_once)
      for (size_t t = 0; t < T; t++) {
        auto& m = fresh.p->get_runningModels()[t];
        if (!m->get_has_control_limits()) continue;
        for (Eigen::Index i = 0; i < us[t].size(); i++) SIM_CHECK(c, us[t][i] >= m->get_u_lb()[i] && us[t][i] <= m->get_u_ub()[i], "control-bound", "%s iteration %zu: control %zu(%d) is %.17g outside [%g, %g]", nm, s.get_iter(), t, (int)i, us[t][i], m->get_u_lb()[i], m->get_u_ub()[i]);
      }
    if (!at_cb) return;
    SIM_CHECK(c, s.get_steplength() == last.alpha, "step", "%s iteration %zu: step length %g reported, the last one tried is %g", nm, s.get_iter(), s.get_steplength(), last.alpha);
    // the stopping value
    last_stop_ref = NAN;
    if (kind == S_KKT) {
      if (kkt_ok) {
        last_stop_ref = kkt_stop;
        SIM_CHECK(c, std::fabs(s.get_stop() - kkt_stop) <= 1e-4 * std::fabs(kkt_stop) + 1e-12, "stop", "KKT iteration %zu: stop is %.17g, the independently computed value is %.17g", s.get_iter(), s.get_stop(), kkt_stop);
        c.count("stop_verified");
      }
      return;
    }
    if (!ref_ok) return;
    if (kind == S_INTRO && !best.ok) return;
    double d0 = ref.d0 + ref.gd0, d1 = ref.d1 + ref.gd1, dv = 0;
    if (kind == S_DDP || kind == S_BOXDDP) { d0 = ref.d0; d1 = ref.d1; }
    else if (!was_feas && best.ok) {
      // d_ is computed after each successful trial, before acceptance
      auto& st = fresh.p->get_runningModels()[0]->get_state();
      VectorXd dx(spec.ndx);
      for (size_t t = 0; t <= T; t++) {
        st->diff(best.xs[t], pxs[t], dx);
        dv -= (double)ref.fs[t].dot(ref.Vxx[t] * dx.cast<ld>());
        ref.scale += (double)ref.fs[t].cwiseAbs().dot(ref.Vxx[t].cwiseAbs() * dx.cast<ld>().cwiseAbs());
      }
      d0 += dv;
      d1 -= 2 * dv;
    }
    double want = std::fabs(d0 + 0.5 * d1);
    if (kind == S_INTRO) want = std::max(want, s.get_hfeas());
    double tol = 1e-6 * (std::fabs(d0) + std::fabs(d1)) + 1e-9 * ref.scale + 1e-13 * (1 + std::fabs(pre_cost));
    if (kind == S_BOXDDP || kind == S_BOXFDDP) {
      tol = 1e-4 * ref.scale + 1e-10 + ref.slack;
      // the projected Newton method may stall before the minimum: none of its
      // ten step lengths decreases the cost at a corner
      const auto& ks = dynamic_cast<cr::SolverDDP&>(s).get_k();
      for (size_t t = T; t-- > 0;) {
        auto& m = fresh.p->get_runningModels()[t];
        if (!m->get_has_control_limits() || !was_feas || !m->get_nu()) continue;
        VectorXd opt = -ref.k[t].cast<double>(), x = -ks[t];
        VectorXd lb = m->get_u_lb() - pus[t], ub = m->get_u_ub() - pus[t];
        for (Eigen::Index i = 0; i < x.size(); i++) {
          double a = std::fabs(x[i] - lb[i]), b = std::fabs(x[i] - ub[i]);
          if ((a > 0 && a < 1e-9) || (b > 0 && b < 1e-9)) { c.count("boxqp_near_bound"); return; }
        }
        if ((x - opt).lpNorm<Eigen::Infinity>() <= 1e-3 * (1 + opt.lpNorm<Eigen::Infinity>())) continue;
        if (boxqp_stuck(ref.Quu[t].cast<double>(), ref.Qu[t].cast<double>(), lb, ub, x, opt)) { c.count("boxqp_stalled"); return; }
        break;
      }
    }
    if (kind == S_INTRO) tol += ref.noise + 1e-8 * std::fabs(pre_cost);
    last_stop_ref = want;
    SIM_CHECK(c, std::fabs(s.get_stop() - want) <= tol, "stop", "%s iteration %zu: stop is %.17g, the independently computed value is %.17g (d0 %.9g d1 %.9g, reported %.9g %.9g, preg %g, feasible %d)", nm, s.get_iter(), s.get_stop(), want, d0, d1, s.get_d()[0], s.get_d()[1], pre_preg, was_feas);
    c.count("stop_verified");
  }
  std::vector<VectorXd> pxs, pus;
  void at_end(cr::SolverAbstract& s, const SolveOut& o) {
    if (mode == M_BOUND) return;
    if (started) {
      // a foreign exception may leave right after a step was taken, but no
      // model is called there: the candidate is the one of the last callback
      // or, in an iteration that ended without callback, its last trial
      bool kept = same_cand(s, cxs, cus), taken = last.ok && same_cand(s, last.xs, last.us);
      SIM_CHECK(c, kept || taken, "candidate-leak", "%s: after the solve the candidate is neither the last accepted one nor the last completely evaluated trial", solver_name(kind));
      if (taken && !kept) {
        SIM_CHECK(c, o.outcome != R_FOREIGN, "candidate-leak", "%s: a solve ended by an exception of a later evaluation took a trial", solver_name(kind));
        accepted_once = true;
        cand_hurt = last.hurt;
        check_sane(s);
        if (mode == M_LEAK) check_acceptance(s);
      }
      if (mode == M_TRUTH && cost_known) check_truth(s, false, false);
    }
    if (mode != M_TRUTH) return;
    if (o.outcome == R_TRUE) {
      c.count("returned_true");
      SIM_CHECK(c, !o.iters.empty(), "false-true", "%s: solve() returned true without an iteration", solver_name(kind));
      const Report& r = o.iters.back();
      SIM_CHECK(c, r.stop < opts.th_stop, "false-true", "%s: solve() returned true but reported stop %.17g with threshold %.17g", solver_name(kind), r.stop, opts.th_stop);
      SIM_CHECK(c, s.get_is_feasible(), "false-true", "%s: solve() returned true for a candidate flagged infeasible", solver_name(kind));
      if (kind != S_INTRO && kind != S_KKT) SIM_CHECK(c, was_feas, "false-true", "%s: solve() returned true although its criterion was evaluated on an infeasible candidate", solver_name(kind));
      if (!std::isnan(last_stop_ref)) {
        double tol = kind == S_BOXDDP || kind == S_BOXFDDP ? 1e-4 * ref.scale + 1e-10 : 1e-9 * ref.scale + 1e-12 * (1 + std::fabs(pre_cost));
        SIM_CHECK(c, last_stop_ref < opts.th_stop * (1 + 1e-5) + tol, "false-true", "%s: solve() returned true but the criterion computed independently is %.17g with threshold %.17g", solver_name(kind), last_stop_ref, opts.th_stop);
        c.count("true_verified");
      }
      if (linear && !cand_hurt && pre_preg <= 1e-6 && kind != S_INTRO) {
        bool limits = false;
        if (kind == S_BOXDDP || kind == S_BOXFDDP)
          for (auto& m : fresh.p->get_runningModels()) limits |= m->get_has_control_limits();
        fresh.eval(s.get_xs(), s.get_us(), true);
        RefIn in;
        in.xs = s.get_xs();
        in.us = s.get_us();
        if (!limits) {
          RefDir e = ref_direction(*fresh.p, in);
          if (e.ok) {
            double sub = std::fabs(e.d0 + 0.5 * e.d1), allow = kind == S_KKT ? 10 * std::sqrt(opts.th_stop) + 1e-9 * (1 + std::fabs(fresh.cost)) : 2 * opts.th_stop + 1e-9 * (1 + std::fabs(fresh.cost));
            SIM_CHECK(c, sub <= allow, "not-optimal", "%s: solve() returned true on a linear-quadratic problem with cost %.17g, which is %.9g above the optimum", solver_name(kind), fresh.cost, sub);
            c.count("lq_optimum_verified");
          }
        } else if (ref_ok && !ref.clamped_moving) {
          in.box = true;
          RefDir e = ref_direction(*fresh.p, in);
          if (e.ok && !e.clamped_moving) {
            double worst = 0;
            for (auto& k : e.k) if (k.size()) worst = std::max(worst, (double)k.cwiseAbs().maxCoeff());
            SIM_CHECK(c, worst < 0.05, "not-optimal", "%s: solve() returned true on a linear-quadratic problem but the optimal control change is %g", solver_name(kind), worst);
            c.count("lq_optimum_verified");
          }
        }
      }
    }
  }
};
void run_mode(Ctx& c, Mode mode) {
  Setup s;
  gen_setup(c, s, mode == M_BOUND);
  Rng r = c.rng.fork(7);
  FaultGen fg;
  fg.kinds = mode == M_TRUTH ? kTruthKinds : kAllKinds;
  fg.max = mode == M_BOUND ? 5 : 4;
  fg.range = (uint64_t)std::max<size_t>(8, (s.spec.running.size() + 1) * 12);
  gen_faults(c, r, s.ctl, fg, (int)s.spec.running.size());
  c.trace("%s %s", solver_name(s.kind), s.opts.describe().c_str());
  c.trace("%s", s.spec.describe().c_str());
  c.trace("warm start kind %d flagged %s", s.warm.kind, s.opts.feasible ? "feasible" : "infeasible");
  Watch w(c, mode, s.kind, s.ctl, s.spec, s.opts);
  SolverPtr sol;
  {
    rt::Lib lib;
    sol = make_solver(s.kind, s.pr, &w);
  }
  apply_opts(*sol, s.kind, s.opts);
  for (auto& f : s.ctl.plan) if (f.kind >= FK_NAN_COST) w.faulty_values = true;
  const size_t T = s.spec.running.size(), na = n_alphas(*sol);
  double inc = 10, rmax = 1e9;
  if (auto* d = dynamic_cast<cr::SolverDDP*>(sol.get())) { inc = d->get_reg_incfactor(); rmax = d->get_reg_max(); }
  double top = std::isfinite(rmax) && rmax > 0 ? rmax : 1e308;
  double R = std::ceil((std::log(std::max(top, 1e-300)) - std::log(1e-300)) / std::log(std::max(inc, 1.0001))) + 4;
  if (!(R > 4)) R = 4;
  w.dirs_limit = (uint64_t)((double)s.opts.maxiter * (R + 2)) + 4;
  s.ctl.limit = (uint64_t)((double)s.opts.maxiter * ((R + 2) * 2 * (double)(T + 1) + (double)na * (double)(T + 1))) + 8 * (T + 1);
  s.ctl.recording = mode != M_BOUND;
  for (auto& n : s.ctl.calls) n = 0;
  Rng ra = c.rng.fork(8);
  const bool want_oom = ra.chance(0.15), oom_sticky = ra.chance(0.1);
  const uint64_t oom_nth = (uint64_t)std::exp(ra.uni(0, std::log(60. * (double)(T + 1))));
  const uint64_t oom_before = rt::alloc_failures();
  if (want_oom && c.fault()) {
    rt::arm_alloc_fail(oom_nth, oom_sticky);
    c.trace("allocation %llu of the solve fails%s", (unsigned long long)oom_nth, oom_sticky ? " and all after it" : "");
  }
  SolveOut o = run_solve(*sol, s.warm, s.opts, [&](cr::SolverAbstract& a) { w.at_callback(a); });
  rt::disarm_alloc_fail();
  const bool oom = rt::alloc_failures() > oom_before;
  if (oom) c.count("fault.out_of_memory");
  s.ctl.recording = false;
  c.trace("outcome %d %s after %zu iterations, %llu evaluations", o.outcome, o.what.c_str(), o.iters.size(), (unsigned long long)s.ctl.evals());
  if (oom && o.outcome == R_STD && o.what == "std::bad_alloc") {
    c.count("out.bad_alloc");
    log_out(c, o);
    return;
  }
  SIM_CHECK(c, o.outcome != R_STD, "escaped-exception", "%s: solve() let a std::exception escape: %s", solver_name(s.kind), o.what.c_str());
  w.at_end(*sol, o);
  if (mode == M_BOUND) {
    SIM_CHECK(c, o.iters.size() <= s.opts.maxiter && sol->get_iter() <= s.opts.maxiter, "iteration-count", "%s: %zu iterations with maxiter %zu", solver_name(s.kind), o.iters.size(), s.opts.maxiter);
    c.count(o.outcome == R_TRUE ? "out.true" : o.outcome == R_FALSE ? "out.false" : "out.foreign");
  }
  c.mark((uint64_t)o.outcome);
  c.count((std::string("solver.") + solver_name(s.kind)).c_str());
  c.count("iterations", o.iters.size());
  c.count("failed_directions", w.fails);
  c.count("failed_trials", w.rejects);
  log_out(c, o);
}
void c04(Ctx& c) { run_mode(c, M_BOUND); }
void c05(Ctx& c) { run_mode(c, M_TRUTH); }
void c06(Ctx& c) { run_mode(c, M_LEAK); }
Register r4_("C04", c04), r5_("C05", c05), r6_("C06", c06);
}  // namespace
