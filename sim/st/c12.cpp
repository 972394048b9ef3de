// C12: two equal worlds live through the same operations; in one of them
// allocations fail and the interrupted operation is repeated.
#include <cmath>
#include <iostream>
#include <sstream>

#include "common/solve.hpp"
#include "common/units.hpp"
#include "crocoddyl/core/solvers/box-qp.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
#include "crocoddyl/core/utils/callbacks.hpp"
#include "crocoddyl/core/utils/stop-watch.hpp"
using namespace sim;
namespace {
struct Discard : std::streambuf {
  int overflow(int ch) override { return ch; }
  std::streamsize xsputn(const char*, std::streamsize k) override { return k; }
};
struct World {
  ProblemSpec spec;
  ProblemPtr pr;
  SolverPtr sol;
  int kind = -1;
  std::unique_ptr<cr::BoxQP> qp;
  std::vector<std::shared_ptr<cr::ShootingProblem>> copies;
  // a model of any kind, two datas of it
  std::unique_ptr<Unit> unit;
  std::shared_ptr<void> data[2];
  Outs outs;
  // of the last operation
  SolveOut out;
  double cost = 0;
  VectorXd v;
  std::string text;
  bool refused = false;  // a library exception
  std::string why;
};
enum { O_BUILD, O_EVAL, O_ROLLOUT, O_EDIT, O_SOLVER, O_SOLVE, O_DIRECT, O_QP, O_COPY, O_PRINT, O_RESIZE, O_CAND, O_DATA, O_ASSIGN, O_CALLBACK, O_UNIT, O_UNIT_DATA, O_UNIT_EVAL, O_UNIT_CHANGE, O_COUNT };
const char* ON[] = {"op.build-problem", "op.evaluate", "op.rollout", "op.edit", "op.new-solver", "op.solve", "op.direction-and-trial", "op.box-qp", "op.copy-problem", "op.print", "op.resize-data", "op.set-candidate", "op.create-data", "op.options", "op.solve-with-callback", "op.new-model", "op.model-data", "op.model-evaluate", "op.model-change"};

std::vector<VectorXd> rand_us(Rng& r, const cr::ShootingProblem& p) {
  std::vector<VectorXd> us;
  for (auto& m : p.get_runningModels()) us.push_back(gen_u(r, (int)m->get_nu()));
  return us;
}
std::vector<VectorXd> rand_xs(Rng& r, const ProblemSpec& s) {
  std::vector<VectorXd> xs;
  for (size_t t = 0; t <= s.running.size(); t++) xs.push_back(gen_x(r, s));
  return xs;
}
void log_problem(World& w) {
  rt::NoLib nl;
  std::vector<double> v;
  auto put = [&](const double* p, Eigen::Index n) { for (Eigen::Index i = 0; i < n; i++) v.push_back(p[i]); };
  auto& R = w.pr->get_runningDatas();
  for (auto& d : R) {
    v.push_back(d->cost);
    put(d->xnext.data(), d->xnext.size());
    put(d->Fx.data(), d->Fx.size()); put(d->Fu.data(), d->Fu.size());
    put(d->Lx.data(), d->Lx.size()); put(d->Lu.data(), d->Lu.size());
    put(d->Lxx.data(), d->Lxx.size()); put(d->Lxu.data(), d->Lxu.size()); put(d->Luu.data(), d->Luu.size());
    put(d->g.data(), d->g.size()); put(d->h.data(), d->h.size());
  }
  auto& d = w.pr->get_terminalData();
  v.push_back(d->cost);
  put(d->Lx.data(), d->Lx.size()); put(d->Lxx.data(), d->Lxx.size());
  w.v = Eigen::Map<VectorXd>(v.data(), (Eigen::Index)v.size());
}
// one operation, a function of the world and the random numbers only
void apply(int op, World& w, Rng o, GenOpts g, bool intro, const SolverOpts& so, uint64_t fail, bool sticky) {
  auto arm = [&] { if (fail) rt::arm_alloc_fail(fail, sticky); };
  w.v.resize(0);
  w.text.clear();
  w.refused = false;
  w.cost = 0;
  w.out = SolveOut();
  w.outs.clear();
  switch (op) {
    case O_UNIT: {
      Rng q = o.fork(3);
      rt::Lib lib;
      arm();
      std::unique_ptr<Unit> m = make_unit(q, true);
      std::shared_ptr<void> d0 = m->make(), d1 = m->make();
      rt::disarm_alloc_fail();
      w.data[0] = d0; w.data[1] = d1;
      w.unit = std::move(m);
      break;
    }
    case O_UNIT_DATA: {
      if (!w.unit) break;
      rt::Lib lib;
      arm();
      std::shared_ptr<void> d = w.unit->make();
      rt::disarm_alloc_fail();
      w.data[o.below(2)] = d;
      break;
    }
    case O_UNIT_EVAL: {
      if (!w.unit) break;
      Rng q = o.fork(3);
      Point p = gen_point(q, *w.unit, false);
      const bool term = w.unit->has_term() && q.chance(0.3), ex = w.unit->has_extra() && q.chance(0.3), df = q.chance(0.7);
      void* d = w.data[q.below(2)].get();
      rt::Lib lib;
      if (!ex) arm();  // Eigen's JacobiSVD is not exception safe
      if (ex) w.outs = w.unit->extra(d, p);
      else {
        w.unit->calc(d, p, term);
        if (df) w.unit->diff(d, p, term);
        rt::disarm_alloc_fail();
        rt::NoLib nl;
        w.outs = w.unit->outs(d, term, df);
      }
      rt::disarm_alloc_fail();
      break;
    }
    case O_UNIT_CHANGE: {
      if (!w.unit) break;
      Rng q = o.fork(3);
      Point p = gen_point(q, *w.unit, false);
      auto look = [&] {
        rt::Lib lib;
        auto d = w.unit->make();
        w.unit->calc(d.get(), p, false);
        w.unit->diff(d.get(), p, false);
        rt::NoLib nl;
        return w.unit->outs(d.get(), false, true);
      };
      Outs before;
      if (fail) before = look();
      try {
        rt::Lib lib;
        arm();
        w.unit->mutate(q);
        rt::disarm_alloc_fail();
      } catch (const std::bad_alloc&) {
        rt::disarm_alloc_fail();
        std::string s = sim::differ(look(), before);
        if (!s.empty()) w.text = w.unit->name() + ": a change that failed for lack of memory changed " + s;
        throw;
      }
      w.outs = look();
      break;
    }
    case O_BUILD: {
      int k = w.kind;
      (void)k;
      rt::Lib lib;
      arm();
      ProblemPtr p = make_problem(w.spec, nullptr);
      SolverPtr s;
      if (w.kind >= 0) s = make_solver(w.kind, p);
      rt::disarm_alloc_fail();
      w.pr = p;
      w.sol = s;
      break;
    }
    case O_EVAL: {
      auto xs = rand_xs(o, w.spec), us = rand_us(o, *w.pr);
      rt::Lib lib;
      arm();
      w.cost = w.pr->calc(xs, us);
      w.pr->calcDiff(xs, us);
      rt::disarm_alloc_fail();
      log_problem(w);
      break;
    }
    case O_ROLLOUT: {
      auto us = rand_us(o, *w.pr);
      rt::Lib lib;
      arm();
      std::vector<VectorXd> xs = w.pr->rollout_us(us);
      rt::disarm_alloc_fail();
      rt::NoLib nl;
      std::vector<double> v;
      for (auto& x : xs) for (Eigen::Index i = 0; i < x.size(); i++) v.push_back(x[i]);
      w.v = Eigen::Map<VectorXd>(v.data(), (Eigen::Index)v.size());
      break;
    }
    case O_EDIT: {
      int what = (int)o.below(8);
      size_t T = w.spec.running.size(), i = o.below(T + 1);
      bool termi = (what < 2 && i == T) || what == 4;
      NodeSpec n = gen_node(o, w.spec, g, termi);
      if (intro && !termi) intro_node(n, w.spec.x0);
      std::vector<NodeSpec> list = w.spec.running;
      if (what >= 6) {  // another horizon
        size_t len = (size_t)o.range(1, 6);
        while (list.size() > len) list.pop_back();
        while (list.size() < len) list.push_back(n);
      }
      VectorXd x = gen_x(o, w.spec);
      rt::Lib lib;
      arm();
      switch (what) {
        case 0: { ActionPtr m = make_one(n, nullptr, 0); w.pr->updateModel(i, m); break; }
        case 1: { ActionPtr m = make_one(n, nullptr, 0); auto d = m->createData(); w.pr->updateNode(i, m, d); break; }
        case 2: { ActionPtr m = make_one(n, nullptr, 0); w.pr->circularAppend(m); break; }
        case 3: { ActionPtr m = make_one(n, nullptr, 0); w.pr->circularAppend(m, m->createData()); break; }
        case 4: { ActionPtr m = make_one(n, nullptr, 0); w.pr->set_terminalModel(m); break; }
        case 5: w.pr->set_x0(x); break;
        default: {
          std::vector<ActionPtr> ms;
          for (auto& e : list) ms.push_back(make_one(e, nullptr, 0));
          w.pr->set_runningModels(ms);
        }
      }
      rt::disarm_alloc_fail();
      rt::NoLib nl;
      if (what >= 6) w.spec.running = list;
      else if (what < 2) (i == T ? w.spec.terminal : w.spec.running[i]) = n;
      else if (what < 4) { w.spec.running.erase(w.spec.running.begin()); w.spec.running.push_back(n); }
      else if (what == 4) w.spec.terminal = n;
      else w.spec.x0 = x;
      break;
    }
    case O_SOLVER: {
      int k = (int)o.below(S_COUNT);
      if (k == S_INTRO && !intro) k = S_FDDP;
      if (k == S_KKT && w.spec.so2) k = S_DDP;
      rt::Lib lib;
      arm();
      SolverPtr s = make_solver(k, w.pr);
      rt::disarm_alloc_fail();
      w.sol = s;
      w.kind = k;
      break;
    }
    case O_SOLVE: case O_CALLBACK: {
      if (!w.sol) break;
      SolverOpts q = so;
      q.maxiter = (size_t)o.range(1, 6);
      if (o.chance(0.5)) q.init_reg = std::pow(10., o.range(-9, 0));
      auto models = make_running(w.spec, nullptr);
      Warm wa = gen_warm(o, w.spec, models, make_one(w.spec.terminal, nullptr, 0), w.spec.x0, (int)o.below(5));
      q.feasible = wa.feasible && o.chance(0.6);
      apply_opts(*w.sol, w.kind, q);
      if (op == O_SOLVE) {
        arm();
        w.out = run_solve(*w.sol, wa, q);
        rt::disarm_alloc_fail();
        w.cost = w.out.fin.cost;
        break;
      }
      std::ostringstream os;
      auto cb = std::make_shared<cr::CallbackVerbose>((cr::VerboseLevel)o.below(5));
      std::streambuf* old = std::cout.rdbuf(os.rdbuf());
      w.sol->setCallbacks({cb});
      try {
        rt::Lib lib;
        arm();
        w.out.outcome = w.sol->solve(wa.xs, wa.us, q.maxiter, q.feasible, q.init_reg);
      } catch (const std::exception& e) {
        w.out.outcome = R_STD;
        w.out.what = e.what();
      }
      rt::disarm_alloc_fail();
      std::cout.rdbuf(old);
      std::cout.clear();
      w.sol->setCallbacks({});
      w.out.fin = snap(*w.sol);
      w.text = os.str();
      break;
    }
    case O_DIRECT: {
      if (!w.sol) break;
      auto xs = rand_xs(o, w.spec), us = rand_us(o, *w.pr);
      rt::Lib lib;
      arm();
      w.sol->resizeData();
      w.sol->setCandidate(xs, us, false);
      w.pr->calc(xs, us);  // directions start from an evaluated candidate
      w.sol->set_preg(1e-3);
      w.sol->set_dreg(1e-3);
      w.sol->computeDirection(true);
      w.sol->tryStep(0.5);
      w.sol->expectedImprovement();
      w.sol->stoppingCriteria();
      rt::disarm_alloc_fail();
      break;
    }
    case O_QP: {
      int n = o.range(1, 4);
      MatrixXd H(n, n);
      VectorXd q = gen_u(o, n, 3.), lb = -gen_u(o, n, 1.).cwiseAbs(), ub = gen_u(o, n, 1.).cwiseAbs(), x = gen_u(o, n, 2.);
      lb.array() -= 0.1;
      ub.array() += 0.1;
      for (int i = 0; i < n * n; i++) H.data()[i] = o.uni(-1, 1);
      H = (H * H.transpose()).eval();
      H.diagonal().array() += 0.5;
      rt::Lib lib;
      arm();
      if (!w.qp) w.qp.reset(new cr::BoxQP((size_t)n));
      if (w.qp->get_nx() != (size_t)n) w.qp->set_nx((size_t)n);
      const auto& s = w.qp->solve(H, q, lb, ub, x);
      rt::disarm_alloc_fail();
      rt::NoLib nl;
      w.v = s.x;
      break;
    }
    case O_COPY: {
      rt::Lib lib;
      arm();
      auto p = std::make_shared<cr::ShootingProblem>(*w.pr);
      rt::disarm_alloc_fail();
      rt::NoLib nl;
      w.copies.push_back(p);
      break;
    }
    case O_PRINT: {
      std::ostringstream os;
      bool whole = o.chance(0.5);
      size_t i = o.below(w.pr->get_T() + 1);
      rt::Lib lib;
      arm();
      if (whole) os << *w.pr;
      else if (i < w.pr->get_T()) os << *w.pr->get_runningModels()[i];
      else os << *w.pr->get_terminalModel();
      rt::disarm_alloc_fail();
      rt::NoLib nl;
      w.text = os.good() ? os.str() : "";
      break;
    }
    case O_RESIZE: {
      if (!w.sol) break;
      rt::Lib lib;
      arm();
      w.sol->resizeData();
      rt::disarm_alloc_fail();
      break;
    }
    case O_CAND: {
      if (!w.sol) break;
      auto xs = rand_xs(o, w.spec), us = rand_us(o, *w.pr);
      rt::Lib lib;
      arm();
      w.sol->resizeData();
      if (o.chance(0.5)) w.sol->setCandidate(xs, us, false);
      else { w.sol->set_xs(xs); w.sol->set_us(us); }
      rt::disarm_alloc_fail();
      rt::NoLib nl;
      w.out.fin.xs = w.sol->get_xs();
      w.out.fin.us = w.sol->get_us();
      break;
    }
    case O_DATA: {
      size_t i = o.below(w.pr->get_T());
      VectorXd x = gen_x(o, w.spec), u = gen_u(o, (int)w.pr->get_runningModels()[i]->get_nu());
      rt::Lib lib;
      arm();
      auto m = w.pr->get_runningModels()[i];
      auto d = m->createData();
      m->calc(d, x, u);
      m->calcDiff(d, x, u);
      rt::disarm_alloc_fail();
      rt::NoLib nl;
      w.cost = d->cost;
      w.v = d->Lx;
      break;
    }
    default: {  // options that copy lists
      if (!w.sol) break;
      rt::Lib lib;
      arm();
      if (auto* d = dynamic_cast<cr::SolverDDP*>(w.sol.get())) {
        std::vector<double> al = {1., 0.5, 0.25, 0.1};
        d->set_alphas(al);
      }
      rt::disarm_alloc_fail();
    }
  }
}
// false when it ran out of memory
bool guarded(Ctx& c, int op, World& w, const Rng& o, const GenOpts& g, bool intro, const SolverOpts& so, uint64_t fail, bool sticky) {
  bool ok = true;
  try {
    apply(op, w, o, g, intro, so, fail, sticky);
  } catch (const std::bad_alloc&) {
    ok = false;
  } catch (const std::exception& e) {
    w.refused = true;
    w.why = e.what();
  }
  rt::disarm_alloc_fail();
  (void)c;
  return ok;
}
std::string differ(int op, const World& a, const World& b) {
  if (a.refused != b.refused) return strf("one threw %s, the other did not", a.refused ? a.why.c_str() : b.why.c_str());
  if (a.refused) return "";
  if (!same(a.v, b.v) && !(a.v.size() == b.v.size() && a.v.hasNaN())) return strf("values are %s instead of %s", str(a.v).c_str(), str(b.v).c_str());
  if (!same(a.cost, b.cost) && !(std::isnan(a.cost) && std::isnan(b.cost))) return strf("cost is %.17g instead of %.17g", a.cost, b.cost);
  if (a.text != b.text) return strf("text is '%s' instead of '%s'", a.text.c_str(), b.text.c_str());
  if (op >= O_UNIT) return sim::differ(a.outs, b.outs);
  if (op == O_SOLVE) return diff_out(a.out, b.out, 0);
  if (op == O_CALLBACK) {
    if (a.out.outcome != b.out.outcome) return strf("outcome is %d instead of %d", a.out.outcome, b.out.outcome);
    if (!same(a.out.fin.xs, b.out.fin.xs) || !same(a.out.fin.us, b.out.fin.us)) return "other trajectories";
  }
  if (op == O_CAND && (!same(a.out.fin.xs, b.out.fin.xs) || !same(a.out.fin.us, b.out.fin.us))) return "other trajectories";
  return "";
}
void print_leak(void*, size_t n, uint64_t seq, void* a) {
  ((Ctx*)a)->trace("leaked %zu bytes, allocation %llu", n, (unsigned long long)seq);
}
void c12(Ctx& c) {
  Rng r = c.rng.fork(1);
  rt::set_fill((int)r.below(rt::F_COUNT), r.u64());
  Discard d;
  std::streambuf *oo = std::cout.rdbuf(&d), *oe = std::cerr.rdbuf(&d);
  GenOpts g;
  g.cons = r.chance(0.35);
  g.bounds = r.chance(0.4);
  g.maxT = 4;
  const bool intro = r.chance(0.3);
  (void)cr::getProfiler();  // made once per process
  uint64_t base = rt::live_scoped(), seq0 = rt::seq_now();
  {
    World A, B;
    A.spec = gen_problem(c, r, g);
    g.so2 = A.spec.so2;
    if (intro) for (auto& n : A.spec.running) intro_node(n, A.spec.x0);
    B.spec = A.spec;
    c.trace("%s", A.spec.describe().c_str());
    SolverOpts so;
    so.eq = r.range(0, 2);
    int n = r.range(3, 10);
    for (int k = -2; k < n; k++) {
      Rng o = r.fork((uint64_t)(1000 + k));
      int op = k == -2 ? O_BUILD : k == -1 ? O_SOLVER : (int)o.below(O_COUNT);
      if (k >= 0 && o.chance(0.35)) op = o.chance(0.5) ? O_SOLVE : O_EDIT;
      const bool want = o.chance(0.7), sticky = o.chance(0.25);
      const double where = o.uni(0, 1);
      const int tries = o.chance(0.3) ? 3 : 1;
      const bool f = want && c.fault();
      if (k >= 0 && !c.op()) continue;
      c.mark((uint64_t)op * 2 + f);
      c.count(ON[op]);
      Rng oa = o.fork(1);
      uint64_t a0 = rt::alloc_count();
      bool okA = guarded(c, op, A, oa, g, intro, so, 0, false);
      uint64_t na = rt::alloc_count() - a0;
      SIM_CHECK(c, okA, "spurious", "%s threw bad_alloc while memory was available", ON[op]);
      if (f && na) {
        for (int t = 0; t < tries; t++) {
          uint64_t nth = 1 + (uint64_t)((double)na * std::fmod(where + 0.37 * t, 1.));
          uint64_t before = rt::alloc_failures();
          c.trace("%s, allocation %llu of %llu fails%s", ON[op], (unsigned long long)nth, (unsigned long long)na, sticky ? " and all after it" : "");
          bool ok = guarded(c, op, B, oa, g, intro, so, nth, sticky);
          bool hit = rt::alloc_failures() > before;
          if (hit) c.count(sticky ? "fault.no_memory_left" : "fault.out_of_memory");
          SIM_CHECK(c, ok || hit, "spurious", "%s threw bad_alloc while memory was available", ON[op]);
          if (!ok && op == O_UNIT_CHANGE) SIM_CHECK(c, B.text.empty(), "half-changed", "%s", B.text.c_str());
          if (!ok) { c.count("threw_bad_alloc"); c.mark(7); continue; }
          if (B.refused && !A.refused) { c.count("threw_other"); c.mark(8); continue; }
          if (op == O_SOLVE || op == O_CALLBACK) {
            // a failing allocation inside a solve may end it early, but truthfully
            if (B.out.outcome == R_STD) {
              SIM_CHECK(c, B.out.what == "std::bad_alloc" || A.out.outcome == R_STD, "wrong-exception", "%s threw %s", ON[op], B.out.what.c_str());
              c.count("threw_bad_alloc");
            } else if (B.out.iters.size() && B.kind != S_KKT) {
              auto& it = B.out.iters.back();
              SIM_CHECK(c, it.xs.size() == B.spec.running.size() + 1 && it.us.size() == B.spec.running.size(), "shape", "the trajectories of a solve without memory have %zu states and %zu controls", it.xs.size(), it.us.size());
              if (all_finite(it.xs) && all_finite(it.us)) {
                ProblemPtr p = make_problem(B.spec, nullptr);
                double cost = p->calc(it.xs, it.us);
                SIM_CHECK(c, std::fabs(cost - it.cost) <= 1e-9 * (1 + std::fabs(cost)) || !std::isfinite(cost), "untruthful", "%s without memory reports cost %.17g, its trajectories cost %.17g", ON[op], it.cost, cost);
              }
              c.count("absorbed");
            }
            c.mark(9);
            continue;
          }
          // it completed: as if nothing had happened
          std::string s = op == O_PRINT ? "" : differ(op, B, A);
          SIM_CHECK(c, s.empty(), "wrong-result", "%s completed although an allocation failed, but differs: %s", ON[op], s.c_str());
          if (op == O_EDIT || op == O_COPY || op == O_BUILD || op == O_SOLVER || op == O_UNIT || op == O_UNIT_CHANGE) goto done;  // not to be done twice
        }
      }
      {
        bool okB = guarded(c, op, B, oa, g, intro, so, 0, false);
        SIM_CHECK(c, okB, "spurious", "%s threw bad_alloc while memory was available", ON[op]);
        std::string s = differ(op, B, A);
        SIM_CHECK(c, s.empty(), "wrong-result", "%s with memory available again differs from a process that never ran out of it: %s", ON[op], s.c_str());
      }
    done:
      if (op == O_EVAL) c.logv(A.v);
      if (op == O_SOLVE) log_out(c, A.out);
    }
  }
  std::cout.rdbuf(oo);
  std::cerr.rdbuf(oe);
  if (rt::live_scoped() > base) {
    rt::g_live_scoped_only = true;
    rt::for_live(seq0, rt::seq_now() + 1, print_leak, &c);
  }
  SIM_CHECK(c, rt::live_scoped() <= base, "leak", "%llu blocks are still allocated after everything was destroyed", (unsigned long long)(rt::live_scoped() - base));
}
Register r_("C12", c12);
}  // namespace
