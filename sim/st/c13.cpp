// C13: the same work under other heap and stack contents, clocks, random
// states, profiler settings and observers.
#include <alloca.h>
#include <stdlib.h>

#include <cmath>
#include <iostream>
#include <sstream>

#include "common/solve.hpp"
#include "common/units.hpp"
#include "crocoddyl/core/solvers/box-qp.hpp"
#include "crocoddyl/core/solvers/ipopt/ipopt-iface.hpp"
#include "crocoddyl/core/utils/callbacks.hpp"
#include "crocoddyl/core/utils/stop-watch.hpp"
#include "common/coll.hpp"
using namespace sim;
namespace {
struct Discard : std::streambuf {
  int overflow(int ch) override { return ch; }
  std::streamsize xsputn(const char*, std::streamsize k) override { return k; }
};
__attribute__((noinline)) void dirty_stack(uint64_t v) {
  volatile uint64_t* p = (volatile uint64_t*)alloca(160 << 10);
  for (size_t i = 0; i < (160 << 10) / 8; i++) p[i] = v;
}
Rng* g_jump = nullptr;
int g_jumpy = 0;
int64_t jump(int) {
  if (!g_jump) return 0;
  switch (g_jumpy) {
    case 1: return g_jump->chance(0.2) ? (int64_t)g_jump->below(5000000000000ull) : 1000;
    case 2: return g_jump->chance(0.3) ? -(int64_t)g_jump->below(2000000000ull) : 1000;
    default: return (int64_t)g_jump->below(2000000);
  }
}
struct Config {
  int fill = 0;
  uint64_t seed = 0, stack = 0;
  int clock = 0;          // 0 constant, 1 jumps ahead, 2 jumps back, 3 noise
  int prof = 0;           // 0 off, 1 on, 2 toggled by a callback
  int observers = 0;      // bit 0: verbose callback, bit 1: a reader of every getter
  unsigned rnd = 1;
};
struct Toggler : cr::CallbackAbstract {
  size_t n = 0;
  void operator()(cr::SolverAbstract&) override {
    if (n++ % 2 == 0) cr::getProfiler().enable_profiler();
    else cr::getProfiler().disable_profiler();
  }
};
struct Reader : cr::CallbackAbstract {
  double x = 0;
  void operator()(cr::SolverAbstract& s) override {
    x += s.get_cost() + s.get_merit() + s.get_stop() + s.get_preg() + s.get_dfeas() + s.get_ffeas() + s.get_hfeas() + s.get_gfeas();
    for (auto& v : s.get_xs()) x += v.sum();
    for (auto& v : s.get_fs()) x += v.sum();
    x += s.get_problem()->get_x0().sum();
  }
};
struct Result {
  Report made;            // the new solver, before anything was solved
  SolveOut out;
  double cost = 0;
  std::vector<ADataPtr> datas;
  std::vector<VectorXd> qs, roll;
  VectorXd qp;
  double lone = 0;
  VectorXd lone_d, nlp;
  std::vector<std::string> unit_names;
  std::vector<Outs> units;
  std::string text;
};
struct Work {
  ProblemSpec spec;
  SolverOpts opts;
  Warm warm;
  int kind;
  std::vector<VectorXd> xs, us;
  std::vector<Fault> plan;
  uint64_t lone = 0;
  std::vector<uint64_t> units;
  bool qs = false, extra = false, nlp = false;
};
// a cost and a constraint of their own, and a box QP
void lone(const Work& w, Result& R) {
  Rng o(w.lone);
  auto st = make_state(NodeSpec());
  VectorXd x, u;
  std::unique_ptr<Coll> coll;
  int nu = o.range(1, 2);
  x = rv(o, (Eigen::Index)st->get_nx());
  u = rv(o, nu);
  uint64_t seed = o.u64();
  int n = o.range(1, 3);
  MatrixXd H = rm(o, n, n);
  H = (H * H.transpose()).eval();
  H.diagonal().array() += 0.5;
  VectorXd q = rv(o, n, 3), lb = -rpos(o, n), ub = rpos(o, n), x0 = rv(o, n);
  Rng o2 = o.fork(1), o3 = o.fork(2);
  int kc = o.range(0, 4), kk = o.range(0, 3);
  rt::Lib lib;
  auto act = std::make_shared<SimActuation>(st, (size_t)nu, 5);
  coll.reset(new Coll(st, act));
  { rt::NoLib nl; coll->fill(seed); }
  auto cost = make_cost(o2, st, act, (size_t)nu, kc);
  auto con = make_constraint(o3, st, (size_t)nu, kk, true);
  auto cd = cost->createData(coll.get());
  auto kd = con->createData(coll.get());
  cost->calc(cd, x, u);
  cost->calcDiff(cd, x, u);
  con->calc(kd, x, u);
  con->calcDiff(kd, x, u);
  cr::BoxQP b((size_t)n);
  auto& s = b.solve(H, q, lb, ub, x0);
  rt::NoLib nl;
  R.qp = s.x;
  R.lone = cd->cost;
  std::vector<double> v;
  auto put = [&](const auto& m) { for (Eigen::Index i = 0; i < m.size(); i++) v.push_back(m.data()[i]); };
  put(cd->Lx); put(cd->Lu); put(cd->Lxx); put(cd->Lxu); put(cd->Luu);
  put(kd->g); put(kd->h); put(kd->Gx); put(kd->Gu); put(kd->Hx); put(kd->Hu);
  put(con->get_lb()); put(con->get_ub());
  put(b.get_solution().Hff_inv);
  v.push_back(b.get_reg()); v.push_back((double)b.get_maxiter());
  R.lone_d = Eigen::Map<VectorXd>(v.data(), (Eigen::Index)v.size());
}
// the nonlinear program the library shows to Ipopt
void nlp(const Work& w, Result& R) {
  Rng o(w.lone);
  Rng o1 = o.fork(11);
  std::vector<double> v;
  auto put = [&](const auto& m) { for (Eigen::Index i = 0; i < m.size(); i++) v.push_back(m.data()[i]); };
  int n = 0, m = 0, nj = 0, nh = 0;
  Ipopt::TNLP::IndexStyleEnum style;
  Ipopt::SmartPtr<cr::IpoptInterface> I;
  {
    rt::Lib lib;
    ProblemPtr p = make_problem(w.spec, nullptr);
    I = new cr::IpoptInterface(p);
    I->get_nlp_info(n, m, nj, nh, style);
  }
  VectorXd x(n), lb(n), ub(n), gl(m), gu(m), x0(n), g(n), c(m), J(nj), H(nh), lam = VectorXd::Zero(m), z(n);
  double f = 0;
  std::vector<int> r((size_t)nj), k((size_t)nj), r2((size_t)nh), k2((size_t)nh);
  for (int round = 0; round < 2; round++) {
    for (int i = 0; i < n; i++) x[i] = o1.coarse(-1, 1);
    rt::Lib lib;
    I->get_bounds_info(n, lb.data(), ub.data(), m, gl.data(), gu.data());
    I->get_starting_point(n, true, x0.data(), false, nullptr, nullptr, m, false, nullptr);
    const bool hessian_first = w.lone & 1;
    if (hessian_first) I->eval_h(n, x.data(), true, 0.5, m, lam.data(), true, nh, nullptr, nullptr, H.data());
    I->eval_f(n, x.data(), !hessian_first, f);
    I->eval_g(n, x.data(), false, m, c.data());
    I->eval_grad_f(n, x.data(), false, g.data());
    I->eval_jac_g(n, nullptr, false, m, nj, r.data(), k.data(), nullptr);
    I->eval_jac_g(n, x.data(), false, m, nj, nullptr, nullptr, J.data());
    I->eval_h(n, nullptr, false, 0.5, m, lam.data(), true, nh, r2.data(), k2.data(), nullptr);
    if (!hessian_first) I->eval_h(n, x.data(), false, 0.5, m, lam.data(), true, nh, nullptr, nullptr, H.data());
    rt::NoLib nl;
    for (auto* a : {&lb, &ub, &gl, &gu, &x0, &g, &c, &J, &H}) put(*a);
    v.push_back(f);
    for (auto* a : {&r, &k, &r2, &k2}) v.insert(v.end(), a->begin(), a->end());
  }
  R.nlp = Eigen::Map<VectorXd>(v.data(), (Eigen::Index)v.size());
}
// one model of any kind, its data, and an evaluation of each sort
void unit(uint64_t seed, const Config& f, Result& R) {
  Rng r(seed);
  rt::Lib lib;
  std::unique_ptr<Unit> m = make_unit(r, true);
  Rng q = r.fork(1);
  auto push = [&](const Outs& o) { rt::NoLib nl; R.units.push_back(o); R.unit_names.push_back(m->name()); };
  auto d = m->make();
  for (int k = 0; k < 3; k++) {
    Point p;
    { rt::NoLib nl; p = gen_point(q, *m, false); }
    const bool term = m->has_term() && q.chance(0.3), ex = m->has_extra() && q.chance(0.3);
    bool made = !k;
    if (q.chance(0.5)) { d = m->make(); made = true; }
    // what a new data shows before it is evaluated is not left to chance either
    if (made && q.chance(0.5)) push(m->fresh_outs(d.get()));
    dirty_stack(f.stack);
    try {
      if (ex) { auto o = m->extra(d.get(), p); push(o); }
      else {
        m->calc(d.get(), p, term);
        if (q.chance(0.8)) { m->diff(d.get(), p, term); push(m->outs(d.get(), term, true)); }
        else push(m->outs(d.get(), term, false));
      }
    } catch (std::exception& e) { push({}); }
    if (q.chance(0.3)) { rt::NoLib nl; m->mutate(q); }
  }
}
Result perform(const Work& w, const Config& f) {
  Result R;
  rt::set_fill(f.fill, f.seed);
  srand(f.rnd);
  Rng jr(f.seed);
  g_jump = f.clock ? &jr : nullptr;
  g_jumpy = f.clock;
  rt::g_clock.hook = jump;
  cr::Stopwatch& prof = cr::getProfiler();
  if (f.prof == 1) prof.enable_profiler();
  else prof.disable_profiler();
  FaultCtl ctl;
  ctl.plan = w.plan;
  ProblemPtr pr, plain;
  SolverPtr sol;
  dirty_stack(f.stack);
  {
    rt::Lib lib;
    plain = make_problem(w.spec, nullptr);
    pr = make_problem(w.spec, &ctl);
    sol = make_solver(w.kind, pr, nullptr);
  }
  R.made = snap(*sol);
  apply_opts(*sol, w.kind, w.opts);
  dirty_stack(f.stack);
  {
    rt::Lib lib;
    R.cost = plain->calc(w.xs, w.us);
    plain->calcDiff(w.xs, w.us);
    auto roll = plain->rollout_us(w.us);
    rt::NoLib nl;
    R.roll = roll;
  }
  {
    rt::Lib lib;
    R.cost = plain->calc(w.xs, w.us);
    plain->calcDiff(w.xs, w.us);
  }
  R.datas = plain->get_runningDatas();
  R.datas.push_back(plain->get_terminalData());
  if (w.qs) {
    dirty_stack(f.stack);
    rt::Lib lib;
    ProblemPtr p2 = make_problem(w.spec, nullptr);
    std::vector<VectorXd> x(w.xs.begin(), w.xs.end() - 1);
    auto q = p2->quasiStatic_xs(x);
    rt::NoLib nl;
    R.qs = q;
  }
  if (w.extra) {
    dirty_stack(f.stack);
    lone(w, R);
  }
  if (w.nlp) {
    dirty_stack(f.stack);
    nlp(w, R);
  }
  for (uint64_t u : w.units) unit(u, f, R);
  {
    std::ostringstream os;
    { rt::Lib lib; os << *plain; }
    R.text = os.str();
  }
  dirty_stack(f.stack);
  std::vector<std::shared_ptr<cr::CallbackAbstract>> obs;
  if (f.prof == 2) obs.push_back(std::make_shared<Toggler>());
  if (f.observers & 1) obs.push_back(std::make_shared<cr::CallbackVerbose>((cr::VerboseLevel)(f.observers >> 2)));
  if (f.observers & 2) obs.push_back(std::make_shared<Reader>());
  R.out = run_solve(*sol, w.warm, w.opts, [&](cr::SolverAbstract& s) { for (auto& o : obs) { rt::Lib lib; (*o)(s); } });
  prof.disable_profiler();
  rt::g_clock.hook = nullptr;
  g_jump = nullptr;
  return R;
}
std::string differ(const Result& a, const Result& b) {
  std::string s;
  if (!(s = diff_report(a.made, b.made, 0)).empty()) return "a new solver: " + s;
  if (!same(a.cost, b.cost) && !(std::isnan(a.cost) && std::isnan(b.cost))) return strf("evaluation: cost is %.17g instead of %.17g", b.cost, a.cost);
  for (size_t t = 0; t < a.datas.size(); t++) {
    s = diff_data(*a.datas[t], *b.datas[t], 15);
    if (!s.empty()) return strf("evaluation: node %zu of %zu: %s", t, a.datas.size() - 1, s.c_str());
  }
  if (!same(a.roll, b.roll)) return "rollout: other states";
  if (!same(a.qs, b.qs)) {
    for (size_t t = 0; t < a.qs.size(); t++)
      if (!same(a.qs[t], b.qs[t]) && !(a.qs[t].hasNaN() && b.qs[t].hasNaN())) return strf("quasi-static input of node %zu: %s instead of %s", t, str(b.qs[t]).c_str(), str(a.qs[t]).c_str());
  }
  if (!same(a.qp, b.qp)) return "box QP: other solution";
  if (!same(a.lone, b.lone) || !same(a.lone_d, b.lone_d)) return "single cost or constraint: other values";
  if (!same(a.nlp, b.nlp)) {
    for (Eigen::Index i = 0; i < a.nlp.size() && i < b.nlp.size(); i++)
      if (!same(a.nlp[i], b.nlp[i]) && !(std::isnan(a.nlp[i]) && std::isnan(b.nlp[i]))) return strf("nonlinear program of Ipopt: value %d is %.17g instead of %.17g", (int)i, b.nlp[i], a.nlp[i]);
  }
  for (size_t i = 0; i < a.units.size(); i++) {
    s = sim::differ(b.units[i], a.units[i]);
    if (!s.empty()) return a.unit_names[i] + ": " + s;
  }
  if (a.text != b.text) return "printed problem: other text";
  s = diff_out(b.out, a.out, 0);
  return s.empty() ? s : "solve: " + s;
}
void c13(Ctx& c) {
  Discard d;
  std::streambuf *oo = std::cout.rdbuf(&d), *oe = std::cerr.rdbuf(&d);
  (void)cr::getProfiler();
  Setup s;
  gen_setup(c, s, false);
  Rng r = c.rng.fork(7);
  Work w;
  w.spec = s.spec;
  w.opts = s.opts;
  w.warm = s.warm;
  w.kind = s.kind;
  Rng o = r.fork(1);
  for (size_t t = 0; t <= s.spec.running.size(); t++) w.xs.push_back(gen_x(o, s.spec));
  {
    ProblemPtr probe = make_problem(s.spec, nullptr);
    for (auto& m : probe->get_runningModels()) w.us.push_back(gen_u(o, (int)m->get_nu()));
  }
  w.lone = o.u64();
  for (int k = o.range(0, 3); k > 0; k--) w.units.push_back(o.u64());
  w.qs = o.chance(0.3);
  w.extra = o.chance(0.3);
  w.nlp = o.chance(0.25);
  Rng rf = r.fork(2);
  FaultCtl plan;
  FaultGen fg;
  fg.kinds = kAllKinds;
  fg.max = rf.chance(0.6) ? 0 : 3;
  fg.range = (uint64_t)std::max<size_t>(8, (s.spec.running.size() + 1) * 10);
  gen_faults(c, rf, plan, fg, (int)s.spec.running.size());
  w.plan = plan.plan;
  c.trace("%s %s", solver_name(s.kind), s.opts.describe().c_str());
  c.trace("%s", s.spec.describe().c_str());
  Config base;
  base.fill = rt::F_ZERO;
  Result a = perform(w, base);
  static const char* FN[] = {"zeros", "NaN", "ones", "random bytes", "1e300", "1.0"};
  static const char* CN[] = {"constant", "jumping ahead", "jumping back", "noisy"};
  static const char* FC[] = {"heap.zero", "fault.heap_nan", "fault.heap_ones", "fault.heap_random", "fault.heap_huge", "fault.heap_one"};
  static const char* CC[] = {"clock.constant", "fault.clock_jumps_ahead", "fault.clock_jumps_back", "fault.clock_noise"};
  int n = r.range(1, 4);
  for (int k = 0; k < n; k++) {
    Rng q = r.fork(1000 + (uint64_t)k);
    Config f;
    f.fill = q.range(0, rt::F_COUNT - 1);
    f.seed = q.u64();
    f.stack = q.chance(0.5) ? 0x7ff8dead00000000ull : q.u64();
    f.clock = q.range(0, 3);
    f.prof = q.range(0, 2);
    f.observers = q.chance(0.5) ? 0 : (int)(1 + q.below(3)) | (q.range(0, 4) << 2);
    f.rnd = (unsigned)q.below(1000);
    if (!c.fault()) f.fill = rt::F_ZERO;
    if (!c.fault()) f.clock = 0;
    if (!c.fault()) f.prof = 0;
    if (!c.fault()) f.observers = 0;
    if (!c.fault()) f.stack = 0;
    if (!c.op()) continue;
    c.trace("heap of %s, clock %s, profiler %s, observers %d", FN[f.fill], CN[f.clock], f.prof == 0 ? "off" : f.prof == 1 ? "on" : "toggled", f.observers);
    Result b = perform(w, f);
    c.count(FC[f.fill]);
    c.count(CC[f.clock]);
    if (f.stack) c.count("fault.stack_garbage");
    if (f.prof) c.count(f.prof == 1 ? "fault.profiler_on" : "fault.profiler_toggled");
    if (f.observers) c.count("observed");
    std::string e = differ(a, b);
    SIM_CHECK(c, e.empty(), "environment", "%s: with a heap of %s, a %s clock, the profiler %s and %s observers the result differs from that with a zero heap, a constant clock and no profiler: %s", solver_name(s.kind), FN[f.fill], CN[f.clock], f.prof == 0 ? "off" : f.prof == 1 ? "on" : "toggled", f.observers ? "some" : "no", e.c_str());
    c.mark((uint64_t)f.fill * 100 + (uint64_t)f.clock * 10 + (uint64_t)f.prof);
  }
  c.count(a.out.outcome == R_TRUE ? "out.true" : a.out.outcome == R_FALSE ? "out.false" : "out.exception");
  c.mark((uint64_t)a.out.outcome * 100 + a.out.iters.size());
  c.count((std::string("solver.") + solver_name(s.kind)).c_str());
  log_out(c, a.out);
  std::cout.rdbuf(oo);
  std::cerr.rdbuf(oe);
}
Register r_("C13", c13);
}  // namespace
