#include "common/solve.hpp"

#include <Eigen/SVD>
#include <cmath>

#include "crocoddyl/core/solvers/box-ddp.hpp"
#include "crocoddyl/core/solvers/box-fddp.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
#include "crocoddyl/core/solvers/fddp.hpp"
#include "crocoddyl/core/solvers/intro.hpp"
#include "crocoddyl/core/solvers/kkt.hpp"

namespace sim {
const std::vector<int> kThrowKinds = {FK_STD, FK_CROCO, FK_ABORT, FK_BADALLOC, FK_TORN};
const std::vector<int> kStdThrowKinds = {FK_STD, FK_CROCO, FK_BADALLOC, FK_TORN};
const std::vector<int> kValueKinds = {FK_NAN_COST, FK_INF_COST, FK_HUGE_COST, FK_NAN_X, FK_INF_X, FK_HUGE_X, FK_NAN_D, FK_INF_D, FK_HUGE_D, FK_INDEF, FK_ZERO_D};
const std::vector<int> kAllKinds = {FK_STD, FK_CROCO, FK_ABORT, FK_BADALLOC, FK_TORN, FK_NAN_COST, FK_INF_COST, FK_HUGE_COST, FK_NAN_X, FK_INF_X, FK_HUGE_X, FK_NAN_D, FK_INF_D, FK_HUGE_D, FK_INDEF, FK_ZERO_D};
// faults a solver can notice: exceptions and non-finite values
const std::vector<int> kTruthKinds = {FK_STD, FK_CROCO, FK_ABORT, FK_BADALLOC, FK_TORN, FK_STD, FK_CROCO, FK_TORN, FK_NAN_COST, FK_INF_COST, FK_NAN_X, FK_INF_X, FK_NAN_D, FK_INF_D, FK_INDEF};

const char* solver_name(int k) {
  static const char* n[] = {"DDP", "FDDP", "BoxDDP", "BoxFDDP", "Intro", "KKT"};
  return n[k];
}
std::string SolverOpts::describe() const {
  std::string s = strf("maxiter=%zu feasible=%d init_reg=%g reg=[%g,%g] x%g /%g th_stop=%g th_acc=%g th_inc=%g th_dec=%g th_grad=%g norm=%d", maxiter, feasible, init_reg, reg_min, reg_max, inc, dec, th_stop, th_acc, th_inc, th_dec, th_grad, feasnorm);
  if (!alphas.empty()) s += strf(" alphas=%zu", alphas.size());
  return s;
}
SolverOpts gen_opts(Ctx& c, Rng& r, int kind, const OptGen& g) {
  SolverOpts o;
  o.maxiter = (size_t)c.knob("maxiter", r.range(g.maxiter_lo, g.maxiter_hi), g.maxiter_lo);
  if (kind == S_BOXDDP || kind == S_BOXFDDP) o.th_stop = 5e-5;
  bool v = r.chance(0.5);
  Rng q = r.fork(3);
  if (v) {
    if (q.chance(0.3)) o.th_stop = std::pow(10., q.range(-12, -3));
    if (q.chance(0.3)) o.th_acc = q.coarse(0.05, 0.9);
    if (q.chance(0.2)) o.th_accneg = q.coarse(0.0, 5);
    if (q.chance(0.2)) o.th_grad = std::pow(10., q.range(-14, -6));
    if (q.chance(0.3)) o.th_inc = q.uni(0.001, 1);
    if (q.chance(0.3)) o.th_dec = q.uni(0.01, 1);
    if (q.chance(0.25)) {
      int n = q.range(1, 14);
      double a = 1;
      for (int i = 0; i < n; i++) { o.alphas.push_back(a); a *= q.uni(0.2, 0.8); }
    }
    if (q.chance(0.3)) o.feasnorm = 1;
    if (q.chance(0.5)) o.eq = q.range(0, 2);
    if (q.chance(0.3)) o.rho = q.coarse(0.1, 0.9);
    if (g.regs) {
      if (q.chance(0.4)) o.init_reg = std::pow(10., q.range(-9, 6));
      if (q.chance(0.3)) o.inc = q.uni(1.5, 100);
      if (q.chance(0.3)) o.dec = q.uni(1.5, 100);
      if (q.chance(0.2)) o.reg_min = std::pow(10., q.range(-12, -3));
      if (q.chance(0.2)) o.reg_max = std::pow(10., q.range(0, 12));
    }
  }
  if (g.wild && q.chance(0.5)) {
    if (q.chance(0.4)) o.init_reg = q.chance(0.5) ? 0 : q.chance(0.5) ? -std::pow(10., q.range(-9, 3)) : q.chance(0.5) ? 1e12 : HUGE_VAL;
    if (q.chance(0.4)) o.reg_min = q.chance(0.7) ? 0 : q.chance(0.5) ? 1e-300 : 1e10;
    if (q.chance(0.3)) o.reg_max = q.chance(0.4) ? 0 : q.chance(0.5) ? HUGE_VAL : 1e-10;
    if (q.chance(0.15)) o.inc = NAN;
    if (q.chance(0.15)) o.dec = NAN;
    if (q.chance(0.15)) o.reg_min = NAN;
    if (q.chance(0.15)) o.reg_max = NAN;
  }
  return o;
}
template <class F>
static void accept(F&& f) {
  try { f(); } catch (const std::exception&) {}
}
void apply_opts(cr::SolverAbstract& s, int kind, const SolverOpts& o) {
  (void)kind;
  s.set_th_stop(o.th_stop);
  s.set_th_acceptstep(o.th_acc);
  s.set_feasnorm(o.feasnorm ? cr::L1 : cr::LInf);
  if (auto* d = dynamic_cast<cr::SolverDDP*>(&s)) {
    // values the setters refuse are not used
    accept([&] { d->set_reg_min(o.reg_min); });
    accept([&] { d->set_reg_max(o.reg_max); });
    accept([&] { d->set_reg_incfactor(o.inc); });
    accept([&] { d->set_reg_decfactor(o.dec); });
    d->set_th_grad(o.th_grad);
    d->set_th_stepinc(o.th_inc);
    d->set_th_stepdec(o.th_dec);
    if (!o.alphas.empty()) d->set_alphas(o.alphas);
    else {
      std::vector<double> a;
      for (int i = 0; i < 10; i++) a.push_back(std::pow(0.5, i));
      d->set_alphas(a);
    }
  }
  if (auto* f = dynamic_cast<cr::SolverFDDP*>(&s)) f->set_th_acceptnegstep(o.th_accneg);
  if (auto* i = dynamic_cast<cr::SolverIntro*>(&s)) {
    i->set_equality_solver((cr::EqualitySolverType)o.eq);
    i->set_rho(o.rho);
    i->set_th_feas(o.th_feas);
    i->set_zero_upsilon(o.zero_upsilon);
  }
}
size_t n_alphas(cr::SolverAbstract& s) {
  if (auto* d = dynamic_cast<cr::SolverDDP*>(&s)) return d->get_alphas().size();
  return 10;
}
namespace {
template <class S>
struct Probe : public S {
  Monitor* mon;
  Probe(ProblemPtr p, Monitor* m) : S(p), mon(m) {}
  void computeDirection(const bool recalc) override {
    { rt::NoLib nl; mon->before_dir(*this, recalc); }
    try {
      S::computeDirection(recalc);
    } catch (...) {
      { rt::NoLib nl; mon->dir_failed(*this, recalc); }
      throw;
    }
    rt::NoLib nl;
    mon->after_dir(*this, recalc);
  }
  double tryStep(const double a) override {
    { rt::NoLib nl; mon->before_try(*this, a); }
    double v;
    try {
      v = S::tryStep(a);
    } catch (...) {
      { rt::NoLib nl; mon->try_failed(*this, a); }
      throw;
    }
    rt::NoLib nl;
    mon->after_try(*this, a);
    return v;
  }
};
template <class S>
SolverPtr mk(ProblemPtr p, Monitor* m) {
  if (m) return std::make_shared<Probe<S>>(p, m);
  return std::make_shared<S>(p);
}
}  // namespace
SolverPtr make_solver(int kind, ProblemPtr p, Monitor* m) {
  switch (kind) {
    case S_DDP: return mk<cr::SolverDDP>(p, m);
    case S_FDDP: return mk<cr::SolverFDDP>(p, m);
    case S_BOXDDP: return mk<cr::SolverBoxDDP>(p, m);
    case S_BOXFDDP: return mk<cr::SolverBoxFDDP>(p, m);
    case S_INTRO: return mk<cr::SolverIntro>(p, m);
    default: return mk<cr::SolverKKT>(p, m);
  }
}
Warm gen_warm(Rng& r, const ProblemSpec& s, const std::vector<ActionPtr>& models, const ActionPtr& term, const VectorXd& x0, int kind, double scale) {
  Warm w;
  w.kind = kind;
  if (kind == 0) return w;
  for (auto& m : models) w.us.push_back(gen_u(r, (int)m->get_nu(), scale));
  if (kind == 2 || kind == 3) {
    for (size_t i = 0; i < models.size(); i++) {
      const ActionPtr& m = models[i];
      if (!m->get_has_control_limits()) continue;
      w.us[i] = w.us[i].cwiseMax(m->get_u_lb()).cwiseMin(m->get_u_ub());
    }
    cr::ShootingProblem p(x0, models, term);
    w.xs = p.rollout_us(w.us);
    w.feasible = kind == 2;
    if (kind == 3)
      for (auto& x : w.xs) {
        VectorXd dx(s.ndx), y(x.size());
        for (int i = 0; i < s.ndx; i++) dx[i] = r.coarse(-0.1, 0.1) * scale;
        models[0]->get_state()->integrate(x, dx, y);
        x = y;
      }
  } else {
    for (size_t i = 0; i <= models.size(); i++) w.xs.push_back(gen_x(r, s, scale));
    if (kind == 4) { if (r.chance(0.5)) w.xs.clear(); else w.us.clear(); }
  }
  return w;
}
Report snap(cr::SolverAbstract& s) {
  Report r;
  r.cost = s.get_cost(); r.stop = s.get_stop();
  r.d0 = s.get_d()[0]; r.d1 = s.get_d()[1];
  r.preg = s.get_preg(); r.dreg = s.get_dreg(); r.step = s.get_steplength();
  r.dV = s.get_dV(); r.dVexp = s.get_dVexp(); r.dPhi = s.get_dPhi(); r.dPhiexp = s.get_dPhiexp();
  r.merit = s.get_merit(); r.dfeas = s.get_dfeas();
  r.ffeas = s.get_ffeas(); r.gfeas = s.get_gfeas(); r.hfeas = s.get_hfeas();
  r.iter = s.get_iter();
  r.feas = s.get_is_feasible();
  r.xs = s.get_xs();
  r.us = s.get_us();
  return r;
}
static bool eqd(double a, double b) { return same(a, b) || (std::isnan(a) && std::isnan(b)); }
static std::string diff_traj(const char* n, const std::vector<VectorXd>& a, const std::vector<VectorXd>& b) {
  if (a.size() != b.size()) return strf("%s has %zu instead of %zu entries", n, a.size(), b.size());
  for (size_t t = 0; t < a.size(); t++) {
    if (a[t].size() != b[t].size()) return strf("%s[%zu] has dimension %d instead of %d", n, t, (int)a[t].size(), (int)b[t].size());
    for (Eigen::Index i = 0; i < a[t].size(); i++)
      if (!eqd(a[t][i], b[t][i])) return strf("%s[%zu](%d) is %.17g instead of %.17g", n, t, (int)i, a[t][i], b[t][i]);
  }
  return "";
}
std::string diff_report(const Report& a, const Report& b, int level) {
#define CD(f) if (!eqd(a.f, b.f)) return strf(#f " is %.17g instead of %.17g", a.f, b.f);
  if (a.iter != b.iter) return strf("iter is %zu instead of %zu", a.iter, b.iter);
  if (a.feas != b.feas) return strf("is_feasible is %d instead of %d", a.feas, b.feas);
  CD(cost)
  std::string s = diff_traj("xs", a.xs, b.xs);
  if (s.empty()) s = diff_traj("us", a.us, b.us);
  if (!s.empty()) return s;
  CD(stop) CD(d0) CD(d1) CD(step)
  if (level == 2) return "";
  CD(preg) CD(dreg) CD(ffeas) CD(gfeas) CD(hfeas)
  if (level == 0) { CD(dV) CD(dVexp) CD(dPhi) CD(dPhiexp) CD(merit) CD(dfeas) }
#undef CD
  return "";
}
void Recorder::operator()(cr::SolverAbstract& s) {
  rt::NoLib nl;
  out->iters.push_back(snap(s));
  if (extra) extra(s);
}
SolveOut run_solve(cr::SolverAbstract& s, const Warm& w, const SolverOpts& o, std::function<void(cr::SolverAbstract&)> extra) {
  SolveOut out;
  auto rec = std::make_shared<Recorder>(&out);
  rec->extra = extra;
  s.setCallbacks({rec});
  try {
    rt::Lib lib;
    out.outcome = s.solve(w.xs, w.us, o.maxiter, o.feasible, o.init_reg) ? R_TRUE : R_FALSE;
  } catch (const Abort&) {
    out.outcome = R_FOREIGN;
  } catch (const std::exception& e) {
    out.outcome = R_STD;
    out.what = e.what();
  }
  s.setCallbacks({});
  out.fin = snap(s);
  return out;
}
std::string diff_out(const SolveOut& a, const SolveOut& b, int level) {
  for (size_t i = 0; i < a.iters.size() && i < b.iters.size(); i++) {
    std::string d = diff_report(a.iters[i], b.iters[i], level);
    if (!d.empty()) return strf("iteration %zu: %s", i, d.c_str());
  }
  if (a.iters.size() != b.iters.size()) return strf("%zu instead of %zu iterations", a.iters.size(), b.iters.size());
  if (a.outcome != b.outcome) return strf("outcome is %d instead of %d (%s / %s)", a.outcome, b.outcome, a.what.c_str(), b.what.c_str());
  std::string s = diff_traj("final xs", a.fin.xs, b.fin.xs);
  if (s.empty()) s = diff_traj("final us", a.fin.us, b.fin.us);
  if (s.empty() && !a.iters.empty()) { s = diff_report(a.fin, b.fin, level); if (!s.empty()) s = "at the end: " + s; }
  return s;
}
void log_out(Ctx& c, const SolveOut& o) {
  c.log((uint64_t)o.outcome);
  for (auto& r : o.iters) {
    c.logd(r.cost); c.logd(r.stop); c.logd(r.preg); c.logd(r.step);
    for (auto& x : r.xs) c.logv(x);
    for (auto& u : r.us) c.logv(u);
  }
  for (auto& x : o.fin.xs) c.logv(x);
  for (auto& u : o.fin.us) c.logv(u);
}
void gen_faults(Ctx& c, Rng& r, FaultCtl& ctl, const FaultGen& g, int nodes) {
  int n = r.range(0, g.max);
  for (int i = 0; i < n; i++) {
    Rng q = r.fork(700 + (uint64_t)i);
    Fault f;
    f.kind = g.kinds[q.below(g.kinds.size())];
    f.site = q.chance(0.45) ? SITE_DIFF : SITE_CALC;
    if (f.kind >= FK_NAN_D) f.site = SITE_DIFF;
    if (f.kind >= FK_NAN_COST && f.kind <= FK_HUGE_X) f.site = SITE_CALC;
    f.nth = (uint64_t)std::exp(q.uni(0, std::log((double)g.range)));
    f.length = q.chance(g.p_sticky) ? (q.chance(0.3) ? 1000000 : 1 + q.below(40)) : 1;
    f.node = q.chance(0.3) ? (q.chance(0.35) ? nodes : (int)q.below((uint64_t)nodes + 1)) : -1;
    if (f.node >= 0 && f.length == 1) f.length = 1 + q.below(8);
    f.seed = q.u64();
    // no trial of the first iterations gets through
    if (f.site == SITE_CALC && q.chance(0.12)) {
      f.node = -1;
      f.nth = (uint64_t)nodes + 2;
      f.length = q.chance(0.3) ? 1000000 : 1 + q.below(40);
    }
    if (!c.fault()) continue;
    c.trace("fault plan: %s at %s calls %llu..+%llu node %d", fault_name(f.kind), f.site ? "calcDiff" : "calc", (unsigned long long)f.nth, (unsigned long long)f.length, f.node);
    ctl.plan.push_back(f);
  }
}
void Fresh::eval(const std::vector<VectorXd>& xs, const std::vector<VectorXd>& us, bool diff) {
  cost = p->calc(xs, us);
  if (diff) p->calcDiff(xs, us);
}
void intro_node(NodeSpec& n, const VectorXd& x0) {
  if (n.kind != K_LQRC) { n.cons = false; return; }
  ActionPtr a = make_action(n);
  bool bad = a->get_nh() > a->get_nu();
  if (!bad && a->get_nh()) {
    // the null-space solvers need independent constraints
    ADataPtr d = a->createData();
    VectorXd u0 = VectorXd::Zero((Eigen::Index)a->get_nu());
    a->calc(d, x0, u0);
    a->calcDiff(d, x0, u0);
    MatrixXd hu = d->Hu.topRows((Eigen::Index)a->get_nh());
    Eigen::JacobiSVD<MatrixXd> svd(hu);
    bad = !(svd.singularValues().minCoeff() > 0.05);
  }
  if (bad) n.kind = K_LQR;
}
void gen_setup(Ctx& c, Setup& s, bool wild) {
  Rng r = c.rng.fork(1);
  s.kind = (int)r.below(S_COUNT);
  if (s.kind == S_KKT && r.chance(0.3)) s.kind = S_FDDP;
  GenOpts g;
  g.cons = r.chance(0.35);
  g.bounds = s.kind == S_BOXDDP || s.kind == S_BOXFDDP ? r.chance(0.85) : r.chance(0.1);
  g.lqr_only = r.chance(0.3);
  if (s.kind == S_KKT) { g.maxT = 4; g.so2 = false; }
  s.spec = gen_problem(c, r, g);
  if (s.kind == S_INTRO)
    for (auto& n : s.spec.running) intro_node(n, s.spec.x0);
  Rng q = r.fork(2);
  OptGen og;
  og.wild = wild;
  s.opts = gen_opts(c, q, s.kind, og);
  rt::set_fill((int)q.below(rt::F_COUNT), q.u64());
  s.pr = make_problem(s.spec, &s.ctl);
  Rng w = r.fork(3);
  auto models = make_running(s.spec, nullptr);
  int wk = (int)w.below(5);
  s.warm = gen_warm(w, s.spec, models, make_one(s.spec.terminal, nullptr, 0), s.spec.x0, wk, w.chance(0.2) ? 3. : 1.);
  s.opts.feasible = s.warm.feasible ? w.chance(0.7) : wild ? w.chance(0.3) : false;
  c.mark(mix((uint64_t)s.kind * 8 + (uint64_t)wk, s.spec.running.size()));
  for (auto& n : s.spec.running) c.mark((uint64_t)n.kind * 8 + (uint64_t)n.nu);
}
bool all_finite(const std::vector<VectorXd>& v) {
  for (auto& x : v) if (!x.allFinite()) return false;
  return true;
}
}  // namespace sim
