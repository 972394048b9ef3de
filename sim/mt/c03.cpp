// C03: callers that share nothing but models, at the same time.
#include <cmath>

#include "common/solve.hpp"
#include "common/units.hpp"
#include "common/zoo.hpp"
#include "crocoddyl/core/costs/cost-sum.hpp"
#include "crocoddyl/core/data/joint.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "mt/sched.hpp"
using namespace sim;
namespace {
// what callers may share
struct Common {
  std::vector<ActionPtr> run, term;
  StatePtr st;                       // of the parts below
  std::shared_ptr<cr::ActuationModelAbstract> act;
  std::vector<std::shared_ptr<cr::CostModelAbstract>> costs;
  std::vector<std::shared_ptr<cr::ConstraintModelAbstract>> cons;
  ProblemSpec part;                  // problem of the integrated nodes
  std::vector<std::shared_ptr<Unit>> units;  // models of any other kind
};
struct Step {
  int op;
  uint64_t seed;
  std::vector<Fault> plan;           // faults of one node of a built problem
  int fnode;
};
struct Script {
  std::vector<Step> steps;
};
struct Plan {
  ProblemSpec spec;
  std::vector<NodeSpec> run, term;
  uint64_t parts;
  std::vector<Script> callers;
  int ncost, ncons, nunits;
  bool share_term;  // also constrained terminal models
};
typedef std::vector<std::pair<std::string, uint64_t>> Log;

std::shared_ptr<Common> make_common(const Plan& p) {
  auto m = std::make_shared<Common>();
  for (auto& n : p.run) m->run.push_back(make_action(n));
  for (auto& n : p.term) m->term.push_back(make_action(n));
  Rng r(p.parts);
  m->part.nx = m->part.ndx = 4;
  m->part.x0 = gen_x(r, m->part);
  m->st = std::make_shared<cr::StateVector>(4);
  m->act = std::make_shared<SimActuation>(m->st, 2, r.u64());
  for (int i = 0; i < p.ncost; i++) m->costs.push_back(make_cost(r, m->st, m->act, 2, i));
  for (int i = 0; i < p.ncons; i++) m->cons.push_back(make_constraint(r, m->st, 2, i, r.chance(0.5)));
  for (int i = 0; i < p.nunits; i++) { Rng q = r.fork(100 + (uint64_t)i); m->units.push_back(make_unit(q, true)); }
  return m;
}

struct Caller {
  const Plan& p;
  std::shared_ptr<Common> m;
  const Script& s;
  Log log;
  // its own objects
  std::vector<size_t> which;
  std::vector<ActionPtr> nodes;
  std::unique_ptr<FaultCtl> ctl;
  ProblemPtr pr;
  SolverPtr sol;
  int kind = 0;
  std::shared_ptr<cr::CostModelSum> sum;
  std::shared_ptr<cr::CostDataSum> sumd;
  std::shared_ptr<cr::DataCollectorAbstract> coll;
  std::vector<std::string> names;
  std::vector<ActionPtr> term;
  Caller(const Plan& pl, std::shared_ptr<Common> c, const Script& sc) : p(pl), m(c), s(sc), ctl(new FaultCtl) {
    for (size_t i = 0; i < m->term.size(); i++) term.push_back(p.term[i].cons && !p.share_term ? make_action(p.term[i]) : m->term[i]);
  }

  void put(const char* what, uint64_t v) { log.push_back({what, v}); }
  void put(const char* what, const MatrixXd& v) { put(what, hashm(v)); }
  size_t pick(Rng& r) { return (size_t)r.below(m->run.size()); }
  static uint64_t hash_report(const Report& r) {
    uint64_t h = 7;
    double v[] = {r.cost, r.stop, r.d0, r.d1, r.preg, r.dreg, r.step, r.ffeas, r.gfeas, r.hfeas, r.merit};
    for (double d : v) h = std::isnan(d) ? mix(h, 1) : mix(h, hash_bytes(&d, 8));
    h = mix(h, r.iter * 2 + r.feas);
    for (auto& x : r.xs) h = mix(h, hashm(x));
    for (auto& x : r.us) h = mix(h, hashm(x));
    return h;
  }
  void build(Rng& r, const Step& st) {
    which.clear(); nodes.clear();
    sol.reset();
    const long T = r.range(1, 4);
    ctl.reset(new FaultCtl);
    ctl->plan = st.plan;
    for (long i = 0; i < T; i++) {
      which.push_back(pick(r));
      ActionPtr a = m->run[which.back()];
      if (!st.plan.empty() && st.fnode % T == i) a = std::make_shared<SimAction>(a, ctl.get(), (int)i);
      nodes.push_back(a);
    }
    ActionPtr t = term[r.below(term.size())];
    VectorXd x0 = gen_x(r, p.spec);
    rt::Lib l;
    pr = std::make_shared<cr::ShootingProblem>(x0, nodes, t);
    pr->set_nthreads(1);
  }
  void solve(Rng& r, Ctx& c) {
    if (!pr) return;
    Rng q = r.fork(1);
    bool nh = false, bounds = true;
    for (auto& n : pr->get_runningModels()) { nh = nh || n->get_nh() || n->get_ng(); bounds = bounds && n->get_has_control_limits(); }
    if (!sol || q.chance(0.4)) {
      kind = (int)q.below(S_COUNT);
      if (kind == S_KKT && q.chance(0.7)) kind = S_FDDP;
      if (kind == S_INTRO && nh) kind = S_BOXFDDP;
      rt::Lib l;
      sol = make_solver(kind, pr);
    }
    SolverOpts o;
    o.maxiter = (size_t)q.range(1, 5);
    o.th_stop = 1e-7;
    if (q.chance(0.3)) o.init_reg = std::pow(10., q.range(-6, 2));
    { rt::Lib l; apply_opts(*sol, kind, o); }
    Warm w;
    if (q.chance(0.6)) {
      for (auto& n : pr->get_runningModels()) { w.xs.push_back(gen_x(q, p.spec)); w.us.push_back(gen_u(q, (int)n->get_nu())); }
      w.xs.push_back(gen_x(q, p.spec));
    }
    SolveOut out = run_solve(*sol, w, o);
    put("outcome", (uint64_t)out.outcome);
    put(("what:" + out.what).c_str(), 0);
    for (auto& i : out.iters) put("iteration", hash_report(i));
    put("result", hash_report(out.fin));
    c.count("op.solve");
  }
  void eval(Rng& r, Ctx& c) {
    if (!pr) return;
    std::vector<VectorXd> xs, us;
    for (auto& n : pr->get_runningModels()) { xs.push_back(gen_x(r, p.spec)); us.push_back(gen_u(r, (int)n->get_nu())); }
    xs.push_back(gen_x(r, p.spec));
    try {
      rt::Lib l;
      double a = pr->calc(xs, us), b = pr->calcDiff(xs, us);
      rt::NoLib n;
      put("calc", hash_bytes(&a, 8));
      put("calcDiff", hash_bytes(&b, 8));
      for (auto& d : pr->get_runningDatas()) put("data", hash_data(*d));
      put("terminal data", hash_data(*pr->get_terminalData()));
    } catch (const Abort&) { put("threw foreign", 1);
    } catch (const std::exception& e) { put("threw", 2); }
    c.count("op.evaluate");
  }
  void edit(Rng& r, Ctx& c) {
    if (!pr) return;
    size_t i = r.below(pr->get_T()), k = pick(r);
    const int e = (int)r.below(4);
    VectorXd x0 = gen_x(r, p.spec);
    try {
      rt::Lib l;
      switch (e) {
        case 0: pr->updateModel(i, m->run[k]); break;
        case 1: pr->circularAppend(m->run[k]); break;
        case 2: pr->set_x0(x0); break;
        default: { auto d = m->run[k]->createData(); pr->updateNode(i, m->run[k], d); }
      }
      put("edit", 1);
    } catch (const std::exception& ex) { put("edit refused", 0); }
    c.count("op.edit");
  }
  void quasi(Rng& r, Ctx& c) {
    size_t k = pick(r);
    ActionPtr a = m->run[k];
    VectorXd x = gen_x(r, p.spec), u = VectorXd::Zero((Eigen::Index)a->get_nu()), dx(p.spec.ndx);
    try {
      rt::Lib l;
      auto d = a->createData();
      a->quasiStatic(d, u, x);
      put("quasistatic", u);
      VectorXd z = a->get_state()->zero();
      a->get_state()->diff(z, x, dx);
      put("diff", dx);
    } catch (const std::exception& e) { put("quasistatic threw", 0); }
    c.count("op.quasistatic");
  }
  // a cost sum of its own with shared cost models
  void cost(Rng& r, Ctx& c) {
    if (!sum) {
      rt::Lib l;
      sum = std::make_shared<cr::CostModelSum>(m->st, 2);
      sumd.reset();
      names.clear();
    }
    const int e = (int)r.below(4);
    try {
      if (e == 0 || names.empty()) {
        std::string n = strf("%c", (char)('a' + r.below(6)));
        auto& cm = m->costs[r.below(m->costs.size())];
        double w = r.coarse(0.1, 2);
        rt::Lib l;
        sum->addCost(n, cm, w);
        rt::NoLib nl;
        names.push_back(n);
        sumd.reset();
      } else if (e == 1) {
        std::string n = names[r.below(names.size())];
        bool on = r.chance(0.6);
        rt::Lib l;
        sum->changeCostStatus(n, on);
      }
      if (!coll) {
        // joint data: some residuals read accelerations and efforts
        coll = make_simdata();
      }
      VectorXd x = gen_x(r, m->part), u = gen_u(r, 2);
      rt::Lib l;
      if (!sumd) sumd = sum->createData(coll.get());
      sum->calc(sumd, x, u);
      sum->calcDiff(sumd, x, u);
      put("cost", hash_bytes(&sumd->cost, 8));
      put("cost.Lx", MatrixXd(sumd->Lx));
      put("cost.Lu", MatrixXd(sumd->Lu));
      put("cost.Lxx", MatrixXd(sumd->Lxx));
      put("cost.Luu", MatrixXd(sumd->Luu));
    } catch (const std::exception& ex) { put((std::string("cost threw ") + ex.what()).c_str(), 0); }
    c.count("op.costs");
  }
  std::shared_ptr<cr::DataCollectorAbstract> make_simdata() {
    rt::Lib l;
    auto ad = m->act->createData();
    auto jd = std::make_shared<cr::JointDataAbstract>(m->st, m->act, 2);
    jd->tau.setConstant(0.5); jd->a.setConstant(-0.25);
    jd->dtau_dx.setZero(); jd->dtau_du.setIdentity();
    jd->da_dx.setZero(); jd->da_du.setConstant(0.125);
    return std::make_shared<cr::DataCollectorJointActuation>(ad, jd);
  }
  // an integrated node of its own on shared actuation, costs and constraints
  void own(Rng& r, Ctx& c) {
    try {
      rt::Lib l;
      auto cs = std::make_shared<cr::CostModelSum>(m->st, 2);
      int n = r.range(1, (int)m->costs.size());
      for (int i = 0; i < n; i++) cs->addCost(strf("c%d", i), m->costs[r.below(m->costs.size())], 0.5 + i);
      std::shared_ptr<cr::ConstraintModelManager> g;
      if (!m->cons.empty() && r.chance(0.6)) {
        g = std::make_shared<cr::ConstraintModelManager>(m->st, 2);
        int k = r.range(1, (int)m->cons.size());
        for (int i = 0; i < k; i++) g->addConstraint(strf("g%d", i), m->cons[r.below(m->cons.size())]);
      }
      auto dam = std::make_shared<SimDAM>(m->st, m->act, cs, g, 77);
      ActionPtr a;
      if (r.chance(0.6)) a = std::make_shared<cr::IntegratedActionModelEuler>(dam, 0.1);
      else a = std::make_shared<cr::IntegratedActionModelRK>(dam, cr::RKType::two, 0.1);
      auto d = a->createData();
      VectorXd x, u;
      { rt::NoLib nl; x = gen_x(r, m->part); u = gen_u(r, 2); }
      a->calc(d, x, u);
      a->calcDiff(d, x, u);
      put("own node", hash_data(*d));
    } catch (const std::exception& ex) { put((std::string("own node threw ") + ex.what()).c_str(), 0); }
    c.count("op.own_node");
  }
  // a model of some kind: a shared one, or one of its own like it
  void unit(Rng& r, Ctx& c) {
    if (m->units.empty()) return;
    const size_t i = r.below(m->units.size());
    std::shared_ptr<Unit> u = m->units[i];
    const bool own_ = r.chance(0.3);
    if (own_) {
      Rng q(p.parts);
      for (int k = 0; k < 20; k++) q.u64();
      Rng f = q.fork(i);
      rt::Lib l;
      u = make_unit(f, true);
    }
    rt::Lib l;
    auto d = u->make();
    for (int k = r.range(1, 3); k > 0; k--) {
      Point x;
      { rt::NoLib nl; x = gen_point(r, *u, false); }
      // terminal evaluations of shared constraint managers: see share_term
      const bool term = u->has_term() && r.chance(0.3) && (own_ || !u->manager || p.share_term), ex = u->has_extra() && r.chance(0.3);
      try {
        Outs o;
        if (ex) o = u->extra(d.get(), x);
        else { u->calc(d.get(), x, term); u->diff(d.get(), x, term); o = u->outs(d.get(), term, true); }
        rt::NoLib nl;
        for (auto& e : o) put((u->name() + " " + e.first).c_str(), e.second);
      } catch (const std::exception& e) { rt::NoLib nl; put("unit threw", 3); }
      if (own_ && r.chance(0.5)) { rt::NoLib nl; u->mutate(r); }
    }
    c.count("op.unit");
  }
  void go(Ctx& c) {
    for (auto& st : s.steps) {
      Rng r(st.seed);
      switch (st.op) {
        case 0: build(r, st); put("built", pr->get_T()); c.count("op.build"); break;
        case 1: case 2: solve(r, c); break;
        case 3: eval(r, c); break;
        case 4: edit(r, c); break;
        case 5: quasi(r, c); break;
        case 6: case 7: cost(r, c); break;
        case 8: own(r, c); break;
        case 9: case 10: unit(r, c); break;
        default: {  // destroys what it has
          rt::Lib l;
          sol.reset(); pr.reset(); nodes.clear(); sumd.reset(); sum.reset();
          put("destroyed", 0);
        }
      }
    }
    rt::Lib l;
    sol.reset(); pr.reset(); nodes.clear(); sumd.reset(); sum.reset(); coll.reset(); term.clear();
    m.reset();
  }
};
void c03(Ctx& c) {
  Rng r = c.rng.fork(1);
  Plan p;
  GenOpts g;
  g.cons = r.chance(0.4);
  g.bounds = r.chance(0.4);
  g.maxT = 1;
  p.spec = gen_problem(c, r, g);
  for (int i = 0, n = r.range(1, 4); i < n; i++) p.run.push_back(gen_node(r, p.spec, g, false));
  for (int i = 0, n = r.range(1, 2); i < n; i++) p.term.push_back(gen_node(r, p.spec, g, true));
  p.parts = r.u64();
  p.ncost = r.range(1, 5);
  p.ncons = r.range(0, 4);
  p.nunits = r.range(0, 4);
  p.share_term = r.chance(0.05);
  if (p.share_term) c.expect_fatal("shared-bounds", "race", "conflicts with an unordered", "ConstraintModelManagerTpl::calc < sim::SimDAM::calc");
  static const int fills[] = {rt::F_ZERO, rt::F_NAN, rt::F_ONES, rt::F_HUGE};
  rt::set_fill(fills[r.below(4)], 1);
  rt::g_step_limit = 0;
  const long n = c.knob("callers", r.range(2, 4), 2);
  for (long k = 0; k < n; k++) {
    Rng q = r.fork(100 + (uint64_t)k);
    Script s;
    const long len = q.range(2, 7);
    for (long i = 0; i < len; i++) {
      Rng o = q.fork(1000 + (uint64_t)i);
      Step st;
      st.op = i == 0 && o.chance(0.8) ? 0 : (int)o.below(12);
      st.seed = o.u64();
      st.fnode = (int)o.below(4);
      if (st.op == 0 && o.chance(0.4)) {
        FaultCtl tmp;
        FaultGen fg;
        fg.kinds = kAllKinds; fg.max = 2; fg.range = 40;
        gen_faults(c, o, tmp, fg, 1);
        for (auto& f : tmp.plan) f.node = -1;
        st.plan = tmp.plan;
      }
      if (c.op()) s.steps.push_back(st);
      c.mark((uint64_t)st.op);
    }
    p.callers.push_back(s);
  }
  c.trace("%ld callers, %zu models shared", n, p.run.size() + p.term.size());
  // each alone, with models of its own
  std::vector<Log> want;
  for (long k = 0; k < n; k++) {
    Caller a(p, make_common(p), p.callers[(size_t)k]);
    a.go(c);
    want.push_back(a.log);
  }
  start_scheduler(c, r.fork(5), 300000);
  std::vector<std::unique_ptr<Caller>> cs;
  {
    auto m = make_common(p);
    for (long k = 0; k < n; k++) cs.emplace_back(new Caller(p, m, p.callers[(size_t)k]));
  }
  std::vector<std::function<void()>> fs;
  for (long k = 0; k < n; k++) fs.push_back([&, k] { cs[(size_t)k]->go(c); });
  mt::run(fs);
  for (long k = 0; k < n; k++) {
    const Log &a = want[(size_t)k], &b = cs[(size_t)k]->log;
    for (size_t i = 0; i < a.size() && i < b.size(); i++)
      if (a[i] != b[i]) c.violation("differs", "caller %ld of %ld gets another '%s' (record %zu, '%s' when alone) than when it runs alone", k, n, b[i].first.c_str(), i, a[i].first.c_str());
    if (a.size() != b.size()) c.violation("differs", "caller %ld of %ld makes %zu records instead of %zu when it runs alone", k, n, b.size(), a.size());
    for (auto& e : b) c.log(e.second);
  }
  end_scheduler(c);
}
}  // namespace
static Register r_("C03", c03);
