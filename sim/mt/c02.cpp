// C02: whole solves with many threads against the same solves with one.
#include <cmath>
#include <iostream>

#include "common/solve.hpp"
#include "common/zoo.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
#include "crocoddyl/core/solvers/ipopt.hpp"
#include "mt/sched.hpp"
using namespace sim;
namespace {
struct Discard : std::streambuf {
  int overflow(int ch) override { return ch; }
  std::streamsize xsputn(const char*, std::streamsize k) override { return k; }
};
struct Job {  // one solve
  long threads = 1;
  int limit = 1 << 20;
  SolverOpts opts;
  Warm warm;
  VectorXd x0;
};
struct Result {
  SolveOut out;
  std::vector<MatrixXd> K;
  std::vector<VectorXd> k;
  std::vector<uint64_t> datas;
  double cost;
};
const int S_IPOPT = S_COUNT;
const char* name_of(int k) { return k == S_IPOPT ? "Ipopt" : solver_name(k); }
struct World {
  std::vector<std::unique_ptr<FaultCtl>> ctls;
  ProblemPtr pr;
  SolverPtr sol;
  std::vector<Result> res;
  void build(const ProblemSpec& s, const std::vector<std::vector<Fault>>& plans, int kind, bool pooled) {
    std::vector<std::pair<uint64_t, ActionPtr>> pool;
    std::vector<ActionPtr> run;
    ActionPtr term;
    for (size_t i = 0; i <= s.running.size(); i++) {
      const bool t = i == s.running.size();
      const NodeSpec& n = t ? s.terminal : s.running[i];
      ActionPtr a;
      if (pooled && !t)
        for (auto& e : pool) if (e.first == n.key()) a = e.second;
      if (!a) {
        a = make_action(n);
        if (!t) pool.push_back({n.key(), a});
      }
      if (!plans[i].empty()) {
        ctls.emplace_back(new FaultCtl);
        ctls.back()->plan = plans[i];
        a = std::make_shared<SimAction>(a, ctls.back().get(), (int)i);
      }
      if (t) term = a; else run.push_back(a);
    }
    rt::Lib l;
    pr = std::make_shared<cr::ShootingProblem>(s.x0, run, term);
    pr->set_nthreads(1);
    if (kind == S_IPOPT) {
      auto ip = std::make_shared<cr::SolverIpopt>(pr);
      ip->setNumericIpoptOption("max_cpu_time", 1e15);
      ip->setStringIpoptOption("sb", "yes");
      sol = ip;
    } else {
      sol = make_solver(kind, pr);
    }
  }
  void solve(const Job& j, int kind, bool parallel) {
    Result r;
    {
      rt::Lib l;
      pr->set_nthreads(parallel ? (int)j.threads : 1);
      pr->set_x0(j.x0);
    }
    mt::set_team_limit(parallel ? j.limit : 1);
    if (kind == S_IPOPT) {
      sol->set_th_stop(j.opts.th_stop);
      try {
        rt::Lib l;
        r.out.outcome = sol->solve(j.warm.xs, j.warm.us, j.opts.maxiter, j.opts.feasible) ? R_TRUE : R_FALSE;
      } catch (const Abort&) {
        r.out.outcome = R_FOREIGN;
      } catch (const std::exception& e) {
        r.out.outcome = R_STD;
        r.out.what = e.what();
      }
      r.out.fin = snap(*sol);
    } else {
      apply_opts(*sol, kind, j.opts);
      r.out = run_solve(*sol, j.warm, j.opts);
      if (auto* d = dynamic_cast<cr::SolverDDP*>(sol.get())) {
        for (auto& m : d->get_K()) r.K.push_back(m);
        for (auto& m : d->get_k()) r.k.push_back(m);
      }
    }
    for (auto& d : pr->get_runningDatas()) r.datas.push_back(hash_data(*d));
    r.datas.push_back(hash_data(*pr->get_terminalData()));
    res.push_back(std::move(r));
  }
};
bool same_mats(const std::vector<MatrixXd>& a, const std::vector<MatrixXd>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i].rows() != b[i].rows() || a[i].cols() != b[i].cols()) return false;
    for (Eigen::Index k = 0; k < a[i].size(); k++) {
      double x = a[i].data()[k], y = b[i].data()[k];
      if (!same(x, y) && !(std::isnan(x) && std::isnan(y))) return false;
    }
  }
  return true;
}
void c02(Ctx& c) {
  Rng r = c.rng.fork(1);
  int kind = (int)r.below(S_COUNT + 2);
  if (kind > S_IPOPT) kind = S_FDDP;
  if (kind == S_KKT && r.chance(0.4)) kind = S_INTRO;
  GenOpts g;
  g.units = r.chance(0.3);
  g.cons = kind != S_IPOPT && r.chance(0.4);
  g.bounds = kind == S_BOXDDP || kind == S_BOXFDDP ? r.chance(0.85) : kind == S_IPOPT ? r.chance(0.3) : r.chance(0.1);
  g.lqr_only = r.chance(0.25);
  g.maxT = 6;
  if (kind == S_KKT) { g.maxT = 4; g.so2 = false; }
  if (kind == S_IPOPT) g.maxT = 4;
  ProblemSpec spec = gen_problem(c, r, g);
  if (kind == S_INTRO)
    for (auto& n : spec.running) intro_node(n, spec.x0);
  const bool pooled = r.chance(0.75);
  static const int fills[] = {rt::F_ZERO, rt::F_NAN, rt::F_ONES, rt::F_HUGE};
  rt::set_fill(fills[r.below(4)], 1);
  rt::g_step_limit = 0;
  // faults of every node
  Rng qf = r.fork(2);
  const double pf = qf.chance(0.4) ? 0 : 0.4;
  std::vector<std::vector<Fault>> plans(spec.running.size() + 1);
  for (size_t i = 0; i < plans.size(); i++) {
    Rng q = qf.fork(i + 10);
    if (!q.chance(pf)) continue;
    FaultCtl tmp;
    FaultGen fg;
    fg.kinds = kAllKinds;
    fg.max = 2;
    fg.range = 60;
    gen_faults(c, q, tmp, fg, 1);
    for (auto& f : tmp.plan) f.node = -1;
    plans[i] = tmp.plan;
  }
  // the solves
  std::vector<Job> jobs;
  const int n = r.range(1, 3);
  std::vector<std::pair<uint64_t, ActionPtr>> pool;
  for (int k = 0; k < n; k++) {
    Rng q = r.fork(1000 + (uint64_t)k);
    Job j;
    OptGen og;
    og.wild = q.chance(0.2);
    og.maxiter_hi = 15;
    Rng qo = q.fork(1);
    j.threads = c.knob(strf("threads%d", k).c_str(), q.range(k ? 1 : 2, 8), 1);
    const bool lim = q.chance(0.15) && c.fault();
    const bool keep = c.op();
    if (lim) { j.limit = (int)q.range(1, 3); c.count("fault.fewer_threads"); }
    j.opts = gen_opts(c, qo, kind == S_IPOPT ? S_FDDP : kind, og);
    j.x0 = k && q.chance(0.5) ? gen_x(q, spec) : spec.x0;
    std::vector<ActionPtr> models;
    for (auto& s : spec.running) models.push_back(make_action(s));
    Rng w = q.fork(3);
    const int wk = (int)w.below(5);
    j.warm = gen_warm(w, spec, models, make_action(spec.terminal), j.x0, wk, w.chance(0.2) ? 3. : 1.);
    j.opts.feasible = j.warm.feasible ? w.chance(0.7) : false;
    if (keep) jobs.push_back(j);
  }
  c.trace("%s: %s%s", name_of(kind), spec.describe().c_str(), pooled ? " shared models" : "");
  static Discard nowhere;
  std::streambuf *o = std::cout.rdbuf(&nowhere), *e = std::cerr.rdbuf(&nowhere);
  World A, B;
  A.build(spec, plans, kind, pooled);
  for (auto& j : jobs) A.solve(j, kind, false);
  B.build(spec, plans, kind, pooled);
  start_scheduler(c, r.fork(5), 3000000);
  for (size_t k = 0; k < jobs.size(); k++) {
    const Job& j = jobs[k];
    c.trace("solve %zu on %ld threads (at most %d), maxiter %zu", k, j.threads, j.limit, j.opts.maxiter);
    B.solve(j, kind, true);
    const Result &a = A.res[k], &b = B.res[k];
    c.count(strf("solve.%s", name_of(kind)).c_str());
    c.count(a.out.outcome == R_TRUE ? "out.true" : a.out.outcome == R_FALSE ? "out.false" : a.out.outcome == R_STD ? "out.std_exception" : "out.foreign_exception");
    c.mark(mix((uint64_t)kind * 64 + (uint64_t)a.out.outcome, a.out.iters.size()));
    log_out(c, b.out);
    std::string d = diff_out(b.out, a.out, 0);
    if (d.empty() && kind == S_IPOPT && a.out.outcome <= R_TRUE) d = diff_report(b.out.fin, a.out.fin, 1);
    if (!d.empty()) c.violation("differs", "%s: solve %zu on %ld threads: %s on one thread", name_of(kind), k, j.threads, d.c_str());
    if (a.out.what != b.out.what) c.violation("other-exception", "%s: solve %zu on %ld threads throws '%s' instead of '%s'", name_of(kind), k, j.threads, b.out.what.c_str(), a.out.what.c_str());
    std::vector<MatrixXd> ka, kb;
    for (auto& v : a.k) ka.push_back(v);
    for (auto& v : b.k) kb.push_back(v);
    if (!same_mats(a.K, b.K) || !same_mats(ka, kb)) c.violation("gains", "%s: solve %zu on %ld threads leaves other gains than on one thread", name_of(kind), k, j.threads);
    // (numerical differentiation data and the like keep more than this; it
    // is the evaluation's result that counts)
    for (size_t i = 0; i < a.datas.size(); i++)
      if (a.datas[i] != b.datas[i] && a.out.outcome <= R_TRUE) c.violation("data", "%s: solve %zu on %ld threads leaves other data in node %zu of %zu than on one thread", name_of(kind), k, j.threads, i, a.datas.size() - 1);
  }
  for (size_t i = 0, n = std::min(A.ctls.size(), B.ctls.size()); i < n; i++)
    for (int s = 0; s < 2; s++)
      if (A.ctls[i]->calls[s] != B.ctls[i]->calls[s]) c.violation("evaluations", "%s: a node was evaluated %llu times instead of %llu on one thread", name_of(kind), (unsigned long long)B.ctls[i]->calls[s], (unsigned long long)A.ctls[i]->calls[s]);
  std::cout.rdbuf(o);
  std::cerr.rdbuf(e);
  end_scheduler(c);
}
}  // namespace
static Register r_("C02", c02);
