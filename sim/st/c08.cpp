// C08: a shooting problem under arbitrary edit histories, with invalid
// arguments, failing data creation and failing allocations.
#include <algorithm>
#include <sstream>

#include "common/zoo.hpp"
#include "crocoddyl/core/utils/exception.hpp"
using namespace sim;
namespace {
struct Mirror {  // the list model
  VectorXd x0;
  std::vector<ActionPtr> run;
  std::vector<ADataPtr> data;
  ActionPtr term;
  ADataPtr tdata;
  bool updated = false;
};
struct Env {
  Ctx& c;
  FaultCtl ctl;
  ProblemSpec spec;
  GenOpts go;
  ProblemPtr pr;
  Mirror m;
  explicit Env(Ctx& cc) : c(cc) {}
};
// a model with a wrong state dimension (0), wrong tangent dimension (1)
ActionPtr bad_model(Env& e, Rng& r) {
  NodeSpec n;
  n.seed = r.u64();
  if (e.spec.nx == 3 && r.chance(0.5)) {
    if (e.spec.so2) { n.kind = K_NL; n.nx = 3; n.nu = 1; }   // ndx differs
    else { n.kind = K_SO2; n.nx = 3; n.nu = 1; }
  } else {
    n.kind = r.chance(0.5) ? K_NL : K_LQR;
    n.nx = e.spec.nx + (int)r.range(1, 2);
    n.nu = r.range(1, 2);
  }
  return make_one(n, &e.ctl, 900);
}
// often one that another node already has
ActionPtr good_model(Env& e, Rng& r) {
  if (r.chance(0.3)) return r.chance(0.1) ? e.m.term : e.m.run[r.below(e.m.run.size())];
  return make_one(gen_node(r, e.spec, e.go, false), &e.ctl, 0);
}

void compare(Env& e, const char* when) {
  Ctx& c = e.c;
  rt::NoLib nl;
  cr::ShootingProblem& p = *e.pr;
  const Mirror& m = e.m;
  SIM_CHECK(c, p.get_T() == m.run.size(), "horizon", "%s: horizon is %zu, expected %zu", when, p.get_T(), m.run.size());
  SIM_CHECK(c, p.get_runningModels().size() == m.run.size() && p.get_runningDatas().size() == m.run.size(), "horizon", "%s: %zu models and %zu datas for a horizon of %zu", when, p.get_runningModels().size(), p.get_runningDatas().size(), m.run.size());
  SIM_CHECK(c, p.get_nx() == (size_t)e.spec.nx && p.get_ndx() == (size_t)e.spec.ndx, "dims", "%s: nx/ndx changed", when);
  SIM_CHECK(c, same(MatrixXd(p.get_x0()), MatrixXd(m.x0)), "x0", "%s: initial state differs from the list model", when);
  for (size_t i = 0; i < m.run.size(); i++) {
    SIM_CHECK(c, p.get_runningModels()[i] == m.run[i], "models", "%s: node %zu holds another model than the list model predicts", when, i);
    SIM_CHECK(c, p.get_runningDatas()[i] == m.data[i], "datas", "%s: node %zu holds another data than the list model predicts", when, i);
    SIM_CHECK(c, m.run[i]->checkData(p.get_runningDatas()[i]), "foreign-data", "%s: the data of node %zu does not belong to its model", when, i);
  }
  SIM_CHECK(c, p.get_terminalModel() == m.term, "models", "%s: terminal model differs from the list model", when);
  SIM_CHECK(c, p.get_terminalData() == m.tdata, "datas", "%s: terminal data differs from the list model", when);
  SIM_CHECK(c, m.term->checkData(m.tdata), "foreign-data", "%s: the terminal data does not belong to its model", when);
}
// adopts newly created datas into the mirror after checking they are fresh
ADataPtr adopt(Env& e, const ADataPtr& d, const ActionPtr& model, const char* what) {
  SIM_CHECK(e.c, d != nullptr, "datas", "%s: a node has no data", what);
  SIM_CHECK(e.c, model->checkData(d), "foreign-data", "%s: the new node's data does not belong to its model", what);
  for (auto& o : e.m.data) SIM_CHECK(e.c, o != d, "shared-data", "%s: two nodes share one data", what);
  SIM_CHECK(e.c, e.m.tdata != d, "shared-data", "%s: two nodes share one data", what);
  return d;
}
void poll(Env& e, const char* when) {
  bool u = e.pr->is_updated();
  if (e.m.updated) SIM_CHECK(e.c, u, "updated-flag", "%s: models were edited but is_updated() is false", when);
  bool u2 = e.pr->is_updated();
  SIM_CHECK(e.c, !u2, "updated-flag", "%s: is_updated() is still true when asked again", when);
  e.m.updated = false;
  e.c.log(u);
}
void evaluate(Env& e, Rng r, const char* when) {
  Ctx& c = e.c;
  std::vector<VectorXd> xs, us;
  ProblemPtr fresh;
  {
    rt::NoLib nl;
    for (size_t i = 0; i < e.m.run.size(); i++) {
      xs.push_back(gen_x(r, e.spec));
      us.push_back(gen_u(r, (int)e.m.run[i]->get_nu()));
    }
    xs.push_back(gen_x(r, e.spec));
    e.ctl.on = false;
    fresh = std::make_shared<cr::ShootingProblem>(e.m.x0, e.m.run, e.m.term);
  }
  int what = (int)r.below(4);
  if (what == 3) {
    std::vector<VectorXd> x(xs.begin(), xs.end() - 1);
    auto a = e.pr->quasiStatic_xs(x);
    std::vector<VectorXd> b;
    {
      rt::NoLib nl;
      for (size_t i = 0; i < e.m.run.size(); i++) {
        VectorXd u = VectorXd::Zero((Eigen::Index)e.m.run[i]->get_nu());
        e.m.run[i]->quasiStatic(e.m.run[i]->createData(), u, x[i]);
        b.push_back(u);
      }
    }
    SIM_CHECK(c, a.size() == b.size(), "quasi-static", "%s: quasiStatic_xs gives %zu controls for %zu nodes", when, a.size(), b.size());
    for (size_t i = 0; i < a.size(); i++) {
      SIM_CHECK(c, a[i].size() == b[i].size() && (same(a[i], b[i]) || a[i].hasNaN() || b[i].hasNaN()), "quasi-static", "%s: node %zu: quasi-static control %s, its model alone gives %s", when, i, str(a[i]).c_str(), str(b[i]).c_str());
      c.logv(a[i]);
    }
    e.ctl.on = true;
    return;
  }
  if (what == 0) {
    auto a = e.pr->rollout_us(us), b = fresh->rollout_us(us);
    SIM_CHECK(c, same(a, b), "rollout", "%s: rollout differs from a freshly built problem", when);
    for (auto& x : a) c.logv(x);
  } else {
    double a = e.pr->calc(xs, us), b = fresh->calc(xs, us);
    SIM_CHECK(c, same(a, b), "cost", "%s: calc returns %.17g, a freshly built problem %.17g", when, a, b);
    c.logd(a);
    {
      // and both the sum over the nodes evaluated one by one
      rt::NoLib nl;
      double sum = 0, mag = 0;
      for (size_t i = 0; i <= e.m.run.size(); i++) {
        auto mo = i < e.m.run.size() ? e.m.run[i] : e.m.term;
        auto d = mo->createData();
        if (i < e.m.run.size()) mo->calc(d, xs[i], us[i]);
        else mo->calc(d, xs[i]);
        sum += d->cost;
        mag += std::abs(d->cost);
      }
      SIM_CHECK(c, std::isnan(sum) || sum == a || std::abs(sum - a) <= 1e-12 * mag, "cost", "%s: calc returns %.17g, the costs of the nodes sum up to %.17g", when, a, sum);
    }
    if (what == 2) {
      a = e.pr->calcDiff(xs, us);
      b = fresh->calcDiff(xs, us);
      SIM_CHECK(c, same(a, b), "cost", "%s: calcDiff returns %.17g, a freshly built problem %.17g", when, a, b);
    }
  }
  rt::NoLib nl;
  for (size_t i = 0; i <= e.m.run.size(); i++) {
    bool t = i == e.m.run.size();
    const cr::ActionDataAbstract &x = t ? *e.pr->get_terminalData() : *e.pr->get_runningDatas()[i], &y = t ? *fresh->get_terminalData() : *fresh->get_runningDatas()[i];
    std::string d = diff_data(x, y, t ? (what == 2 ? 3 : 1) | 8 : (what == 2 ? 15 : 9));
    SIM_CHECK(c, d.empty(), "evaluation", "%s: node %zu%s: %s", when, i, t ? " (terminal)" : "", d.c_str());
    c.logd(x.cost);
  }
  e.ctl.on = true;
}
enum Op { O_APPEND, O_APPEND_DATA, O_UPDATE_NODE, O_UPDATE_MODEL, O_SET_RUNNING, O_SET_TERMINAL, O_SET_X0, O_NTHREADS, O_COPY, O_POLL, O_EVAL, O_EVAL_BAD, O_EVAL_FAULT, O_CTOR, O_PRINT, O_COUNT };
const char* op_name(int o) {
  static const char* n[] = {"circularAppend(model)", "circularAppend(model,data)", "updateNode", "updateModel", "set_runningModels", "set_terminalModel", "set_x0", "set_nthreads", "copy", "is_updated", "evaluate", "evaluate-wrong-sizes", "evaluate-with-failure", "construct", "print"};
  return n[o];
}

void run(Ctx& c) {
  Env e(c);
  Rng r = c.rng.fork(1);
  e.go.cons = r.chance(0.3);
  e.go.bounds = r.chance(0.3);
  e.spec = gen_problem(c, r, e.go);
  rt::set_fill((int)r.below(rt::F_COUNT), r.u64());
  c.trace("%s", e.spec.describe().c_str());
  int nops = r.range(3, 30);
  rt::Lib lib;
  e.pr = make_problem(e.spec, &e.ctl);
  e.m = {e.spec.x0, e.pr->get_runningModels(), e.pr->get_runningDatas(), e.pr->get_terminalModel(), e.pr->get_terminalData(), false};
  SIM_CHECK(c, !e.pr->is_updated(), "updated-flag", "a new problem reports edited models");
  compare(e, "construction");
  for (int k = 0; k < nops; k++) {
    Rng o = r.fork(1000 + (uint64_t)k);
    int op = (int)o.below(O_COUNT);
    bool invalid = o.chance(0.25);
    int fk = o.chance(0.3) ? (o.chance(0.6) ? 1 : 2) : 0;  // 1 createData throws, 2 allocation fails
    bool f = fk && c.fault();
    if (!c.op()) continue;
    if (!f) fk = 0;
    std::vector<std::weak_ptr<cr::ActionDataAbstract>> gone;
    // choose arguments
    size_t T = e.m.run.size();
    ActionPtr model;
    ADataPtr data;
    std::vector<ActionPtr> list;
    size_t idx = o.below(T + 1);
    VectorXd x0;
    uint64_t nthalloc = 1 + o.below(op == O_SET_RUNNING ? 60 : 25), nthdata = 1;
    std::string desc;
    {
      rt::NoLib nl;
      e.ctl.plan.clear();
      for (auto& n : e.ctl.calls) n = 0;
      switch (op) {
        case O_APPEND_DATA: case O_UPDATE_NODE:
          e.ctl.on = false;
          model = good_model(e, o);
          data = model->createData();
          if (invalid) {
            int w = (int)o.below(op == O_UPDATE_NODE ? 3 : 2);
            if (w == 0) { model = bad_model(e, o); data = model->createData(); desc = " with a model of other dimensions"; }
            else if (w == 1) {  // data of another type of model
              ActionPtr m2;
              NodeSpec n = gen_node(o, e.spec, e.go, false);
              int guard = 0;
              do { n = gen_node(o, e.spec, e.go, false); m2 = make_one(n, &e.ctl, 0); data = m2->createData(); } while (model->checkData(data) && ++guard < 20);
              if (model->checkData(data)) invalid = false;
              desc = " with foreign data";
            } else { idx = T + 1 + o.below(3); desc = " with a bad index"; }
          }
          e.ctl.on = true;
          break;
        case O_APPEND: case O_UPDATE_MODEL: case O_SET_TERMINAL:
          model = good_model(e, o);
          if (invalid) {
            if (op == O_UPDATE_MODEL && o.chance(0.4)) { idx = T + 1 + o.below(3); desc = " with a bad index"; }
            else { model = bad_model(e, o); desc = " with a model of other dimensions"; }
          }
          break;
        case O_SET_RUNNING: {
          size_t n = o.chance(0.5) ? T : (size_t)o.range(1, 8);
          for (size_t i = 0; i < n; i++) list.push_back(o.chance(0.4) ? e.m.run[o.below(T)] : good_model(e, o));
          nthdata = 1 + o.below(n);
          if (invalid) {
            size_t b = o.below(n);
            list[b] = bad_model(e, o);
            desc = strf(" with a model of other dimensions at %zu", b);
          }
          desc += strf(" of %zu models", n);
          break;
        }
        case O_SET_X0:
          x0 = gen_x(o, e.spec);
          if (invalid) { x0 = VectorXd::Ones(e.spec.nx + 1 - 2 * (int)o.below(2)); desc = " of wrong size"; }
          break;
        default: break;
      }
      if (fk == 1 && op <= O_SET_X0) {
        static const int kinds[] = {FK_STD, FK_CROCO, FK_ABORT, FK_BADALLOC};
        e.ctl.plan.push_back({SITE_DATA, nthdata, kinds[o.below(4)], 1, -1, 7});
        desc += " (createData fails)";
      }
      if (fk == 2 && op <= O_SET_X0) desc += strf(" (allocation %llu fails)", (unsigned long long)nthalloc);
      c.trace("op %d: %s%s%s", k, op_name(op), op == O_UPDATE_NODE || op == O_UPDATE_MODEL ? strf(" %zu", idx).c_str() : "", desc.c_str());
      c.mark((uint64_t)op * 8 + (uint64_t)invalid * 4 + (uint64_t)fk);
    }
    const char* nm = op_name(op);
    Mirror before = e.m;
    bool threw = false;
    std::string wht;
    auto edit = [&](auto&& body) {
      if (fk == 2) rt::arm_alloc_fail(nthalloc, false);
      try {
        body();
      } catch (const Abort&) {
        threw = true; wht = "simulated foreign exception";
      } catch (const std::exception& ex) {
        rt::NoLib nl;
        threw = true; wht = ex.what();
      }
      uint64_t nf = rt::alloc_failures();
      rt::disarm_alloc_fail();
      (void)nf;
    };
    uint64_t f0 = rt::alloc_failures(), d0 = e.ctl.fired;
    auto fired = [&]() { return rt::alloc_failures() > f0 || e.ctl.fired > d0; };
    bool is_edit = true;
    switch (op) {
      case O_APPEND: edit([&] { e.pr->circularAppend(model); }); break;
      case O_APPEND_DATA: edit([&] { e.pr->circularAppend(model, data); }); break;
      case O_UPDATE_NODE: edit([&] { e.pr->updateNode(idx, model, data); }); break;
      case O_UPDATE_MODEL: edit([&] { e.pr->updateModel(idx, model); }); break;
      case O_SET_RUNNING: edit([&] { e.pr->set_runningModels(list); }); break;
      case O_SET_TERMINAL: edit([&] { e.pr->set_terminalModel(model); }); break;
      case O_SET_X0: edit([&] { e.pr->set_x0(x0); }); break;
      default: is_edit = false;
    }
    if (is_edit) {
      rt::NoLib nl;
      if (rt::alloc_failures() > f0) c.count("fault.alloc_failure", rt::alloc_failures() - f0);
      c.count(threw ? "edit.failed" : "edit.ok");
      c.log(threw);
      if (invalid) {
        SIM_CHECK(c, threw, "not-rejected", "%s%s was accepted", nm, desc.c_str());
        c.count("edit.rejected");
      } else if (threw) {
        SIM_CHECK(c, fired(), "refused", "%s%s threw although its arguments are valid: %s", nm, desc.c_str(), wht.c_str());
      } else if (fired()) {
        // a fault that fired inside must not be swallowed, unless the edit
        // still reached its complete effect (checked below)
        c.count("edit.fault_survived");
      }
      if (threw) {
        // strong guarantee
        compare(e, strf("after failed %s%s", nm, desc.c_str()).c_str());
      } else {
        switch (op) {
          case O_APPEND: case O_APPEND_DATA:
            gone.push_back(before.data.front());
            e.m.run.erase(e.m.run.begin());
            e.m.data.erase(e.m.data.begin());
            SIM_CHECK(c, e.pr->get_runningDatas().size() == T, "horizon", "%s changed the horizon", nm);
            e.m.data.push_back(op == O_APPEND ? adopt(e, e.pr->get_runningDatas().back(), model, nm) : data);
            e.m.run.push_back(model);
            break;
          case O_UPDATE_NODE: case O_UPDATE_MODEL: {
            ADataPtr now = idx == T ? e.pr->get_terminalData() : e.pr->get_runningDatas().at(idx);
            gone.push_back(idx == T ? e.m.tdata : e.m.data[idx]);
            if (op == O_UPDATE_MODEL) now = adopt(e, now, model, nm); else now = data;
            if (idx == T) { e.m.term = model; e.m.tdata = now; } else { e.m.run[idx] = model; e.m.data[idx] = now; }
            break;
          }
          case O_SET_TERMINAL:
            gone.push_back(e.m.tdata);
            e.m.tdata = adopt(e, e.pr->get_terminalData(), model, nm);
            e.m.term = model;
            break;
          case O_SET_RUNNING: {
            SIM_CHECK(c, e.pr->get_T() == list.size() && e.pr->get_runningDatas().size() == list.size() && e.pr->get_runningModels().size() == list.size(), "horizon", "set_runningModels of %zu models gives horizon %zu, %zu models, %zu datas", list.size(), e.pr->get_T(), e.pr->get_runningModels().size(), e.pr->get_runningDatas().size());
            for (auto& d : e.m.data) gone.push_back(d);
            e.m.run = list;
            e.m.data.clear();
            for (size_t i = 0; i < list.size(); i++) e.m.data.push_back(adopt(e, e.pr->get_runningDatas()[i], list[i], nm));
            break;
          }
          case O_SET_X0: e.m.x0 = x0; break;
        }
        if (op != O_SET_X0) e.m.updated = true;
        compare(e, strf("after %s%s", nm, desc.c_str()).c_str());
      }
      // replaced datas are released
      before = Mirror();
      data.reset();
      for (auto& w : gone) SIM_CHECK(c, w.expired(), "leak", "after %s the replaced node data is still referenced", nm);
    } else {
      before = Mirror();
      switch (op) {
        case O_NTHREADS:
          e.pr->set_nthreads((int)o.range(0, 5));
          compare(e, "after set_nthreads");
          break;
        case O_COPY: {
          size_t nt = e.pr->get_nthreads();
          auto p2 = std::make_shared<cr::ShootingProblem>(*e.pr);
          SIM_CHECK(c, p2->get_nthreads() == nt, "copy", "a copied problem uses %zu threads instead of %zu", p2->get_nthreads(), nt);
          auto old = e.pr;
          e.pr = p2;
          compare(e, "copy");
          bool u = p2->is_updated();
          SIM_CHECK(c, !u || e.m.updated, "updated-flag", "a copy of an unedited problem reports edited models");
          if (o.chance(0.5)) { e.m.updated = false; } else { e.pr = old; compare(e, "after copying"); }
          break;
        }
        case O_POLL: poll(e, "poll"); break;
        case O_EVAL: evaluate(e, o.fork(3), "evaluation"); break;
        case O_EVAL_BAD: {
          std::vector<VectorXd> xs(T + 1, VectorXd::Zero(e.spec.nx)), us;
          for (auto& mm : e.m.run) us.push_back(VectorXd::Zero((Eigen::Index)mm->get_nu()));
          std::vector<VectorXd>&v = o.chance(0.5) ? xs : us;
          int w = (int)o.below(4);
          if (w == 3) xs.pop_back();
          if (o.chance(0.5)) v.pop_back(); else v.push_back(VectorXd::Zero(e.spec.nx));
          bool t = false;
          try {
            if (w == 0) e.pr->calc(xs, us);
            else if (w == 1) e.pr->calcDiff(xs, us);
            else if (w == 2) e.pr->rollout(us, xs);
            else e.pr->quasiStatic(us, xs);
          } catch (const std::exception&) { t = true; }
          SIM_CHECK(c, t, "not-rejected", "trajectories of wrong length were accepted (%d)", w);
          c.count("edit.rejected");
          compare(e, "after an evaluation with wrong sizes");
          break;
        }
        case O_EVAL_FAULT: {
          static const int kinds[] = {FK_STD, FK_CROCO, FK_ABORT, FK_BADALLOC, FK_TORN};
          int kind = kinds[o.below(5)];
          std::vector<VectorXd> xs, us;
          for (auto& mm : e.m.run) { xs.push_back(gen_x(o, e.spec)); us.push_back(gen_u(o, (int)mm->get_nu())); }
          xs.push_back(gen_x(o, e.spec));
          uint64_t nth = 1 + o.below(T + 1);
          bool diff = o.chance(0.5), ro = o.chance(0.4);
          e.ctl.plan.push_back({diff ? SITE_DIFF : SITE_CALC, nth, kind, 1, -1, o.u64()});
          bool t = false;
          try {
            if (diff) { e.pr->calc(xs, us); e.pr->calcDiff(xs, us); }
            else if (ro) e.pr->rollout(us, xs);
            else e.pr->calc(xs, us);
          } catch (const Abort&) { t = true; } catch (const std::exception&) { t = true; }
          SIM_CHECK(c, t, "swallowed", "the exception of a node's model did not reach the caller");
          e.ctl.plan.clear();
          compare(e, "after a failed evaluation");
          evaluate(e, o.fork(4), "evaluation after a failed one");
          break;
        }
        case O_CTOR: {
          // constructors validate and start from a defined state
          std::vector<ActionPtr> run = e.m.run;
          ActionPtr term = e.m.term;
          VectorXd y0 = e.m.x0;
          std::vector<ADataPtr> datas = e.m.data;
          ADataPtr td = e.m.tdata;
          bool withdata = o.chance(0.5), bad = o.chance(0.6);
          int w = bad ? (int)o.below(withdata ? 5 : 3) : -1;
          rt::NoLib nl;
          if (w == 0) y0 = VectorXd::Zero(e.spec.nx + 1);
          if (w == 1) { size_t i = run.size() > 1 ? 1 + o.below(run.size() - 1) : 0; if (i == 0) { w = 2; } else { run[i] = bad_model(e, o); datas[i] = run[i]->createData(); } }
          if (w == 2) { term = bad_model(e, o); td = term->createData(); }
          if (w == 3) datas.push_back(datas[0]);
          if (w == 4) {
            ActionPtr m2 = bad_model(e, o);
            ADataPtr d2 = m2->createData();
            size_t i = o.below(run.size() + 1);
            if ((i == run.size() ? term : run[i])->checkData(d2)) { w = -1; }
            else if (i == run.size()) td = d2; else datas[i] = d2;
          }
          bool t = false;
          ProblemPtr p2;
          rt::Lib l2;
          try {
            p2 = withdata ? std::make_shared<cr::ShootingProblem>(y0, run, term, datas, td) : std::make_shared<cr::ShootingProblem>(y0, run, term);
          } catch (const std::exception&) { t = true; }
          if (w >= 0) SIM_CHECK(c, t, "not-rejected", "the %s constructor accepted inconsistent arguments (kind %d)", withdata ? "data" : "model", w);
          else {
            SIM_CHECK(c, !t, "refused", "a constructor refused consistent arguments");
            SIM_CHECK(c, !p2->is_updated(), "updated-flag", "a problem built by the %s constructor reports edited models", withdata ? "data" : "model");
            SIM_CHECK(c, p2->get_nthreads() == 1, "threads", "a problem built by the %s constructor uses %zu threads", withdata ? "data" : "model", p2->get_nthreads());
            if (withdata) {
              e.pr = p2;
              e.m.updated = false;
              compare(e, "after construction with datas");
            }
          }
          break;
        }
        default: {
          std::ostringstream os;
          os << *e.pr;
          break;
        }
      }
    }
  }
  Rng fin = r.fork(9);
  e.ctl.plan.clear();
  compare(e, "at the end");
  poll(e, "at the end");
  evaluate(e, fin, "at the end");
  std::weak_ptr<cr::ActionDataAbstract> w = e.m.tdata;
  e.m = Mirror();
  e.pr.reset();
  SIM_CHECK(c, w.expired(), "leak", "destroying the problem does not release the node datas");
}
Register reg_("C08", run);
}  // namespace
