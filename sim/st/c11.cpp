// C11: cost sums and constraint managers against a dictionary.
#include "crocoddyl/core/states/euclidean.hpp"
#include <iostream>
#include <map>
#include <set>
#include <sstream>

#include "common/zoo.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/utils/exception.hpp"
#include "common/coll.hpp"
using namespace sim;
namespace {
struct Discard : std::streambuf {
  uint64_t n = 0;
  int overflow(int ch) override { n++; return ch; }
  std::streamsize xsputn(const char*, std::streamsize k) override { n += (uint64_t)k; return k; }
};
struct Quiet {
  Discard d;
  std::streambuf *o, *e;
  Quiet() : o(std::cout.rdbuf(&d)), e(std::cerr.rdbuf(&d)) {}
  ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
const char* NAMES[] = {"a", "b", "c", "", "a name that does not fit into a short string", "Z"};
const int NNAMES = 6;
// outer data the registries can share their memory with
struct ActionDataLike {
  VectorXd Lx, Lu, g, h;
  MatrixXd Lxx, Lxu, Luu, Gx, Gu, Hx, Hu;
};
struct Setup {
  StatePtr st;
  std::shared_ptr<cr::ActuationModelAbstract> act;
  size_t nu;
  int nq;
};
Setup make_setup(Rng& r) {
  Setup s;
  s.nq = r.range(1, 2);
  s.nu = (size_t)r.range(1, s.nq);
  s.st = std::make_shared<cr::StateVector>(2 * s.nq);
  s.act = std::make_shared<SimActuation>(s.st, s.nu, r.u64());
  return s;
}
std::string set_str(const std::set<std::string>& s) {
  std::string o = "{";
  for (auto& k : s) o += "'" + k + "' ";
  return o + "}";
}
enum { O_ADD, O_ADDITEM, O_REMOVE, O_STATUS, O_QUERY, O_DATA, O_EVAL, O_PARAM, O_PRINT, O_BADADD, O_EVAL2, O_COUNT };
const char* OPN[] = {"op.add", "op.add-item", "op.remove", "op.change-status", "op.query", "op.create-data", "op.evaluate", "op.change-parameter", "op.print", "op.refused-add", "op.evaluate"};

// what a name argument may refer to: an independent string or the registry's own entry
template <class Map> const std::string& alias(Rng& r, const Map& items, const std::set<std::string>& act, const std::set<std::string>& inact, const std::string& n, Ctx& c) {
  auto it = items.find(n);
  if (it == items.end()) return n;
  switch (r.below(5)) {
    case 0: c.count("op.aliased-name"); return it->first;
    case 1: c.count("op.aliased-name"); return it->second->name;
    case 2: { auto j = act.find(n); if (j != act.end()) { c.count("op.aliased-name"); return *j; } return n; }
    case 3: { auto j = inact.find(n); if (j != inact.end()) { c.count("op.aliased-name"); return *j; } return n; }
    default: return n;
  }
}

// ------------------------------------------------------------- cost sums
struct CostRef {
  std::shared_ptr<cr::CostModelAbstract> cost;
  double w;
  bool active;
};
typedef std::map<std::string, CostRef> CostDict;
struct CostData {
  Coll coll;
  std::shared_ptr<cr::CostDataSum> d;
  std::map<std::string, void*> names;  // the items it was made for
  ActionDataLike shared;
  bool shares = false;
  CostData(const Setup& s) : coll(s.st, s.act) {}
};
void check_costs(Ctx& c, const cr::CostModelSum& m, const CostDict& dict, const char* after) {
  rt::NoLib nl;
  std::set<std::string> act, inact;
  size_t nr = 0, nrt = 0;
  for (auto& k : dict) {
    size_t n = k.second.cost->get_activation()->get_nr();
    nrt += n;
    if (k.second.active) { nr += n; act.insert(k.first); } else inact.insert(k.first);
  }
  SIM_CHECK(c, m.get_costs().size() == dict.size(), "names", "after %s the sum has %zu costs instead of %zu", after, m.get_costs().size(), dict.size());
  auto it = m.get_costs().begin();
  for (auto& k : dict) {
    SIM_CHECK(c, it->first == k.first && it->second && it->second->cost == k.second.cost && it->second->weight == k.second.w && it->second->active == k.second.active, "items",
              "after %s item '%s' does not have the cost, weight or status it was given", after, k.first.c_str());
    ++it;
  }
  SIM_CHECK(c, m.get_nr() == nr && m.get_nr_total() == nrt, "dimensions", "after %s nr=%zu, nr_total=%zu instead of %zu and %zu", after, m.get_nr(), m.get_nr_total(), nr, nrt);
  SIM_CHECK(c, m.get_active_set() == act && m.get_inactive_set() == inact, "sets", "after %s the active set is %s and the inactive one %s instead of %s and %s", after, set_str(m.get_active_set()).c_str(), set_str(m.get_inactive_set()).c_str(), set_str(act).c_str(), set_str(inact).c_str());
  for (int k = 0; k < NNAMES; k++) {
    auto j = dict.find(NAMES[k]);
    SIM_CHECK(c, m.getCostStatus(NAMES[k]) == (j != dict.end() && j->second.active), "status", "after %s getCostStatus('%s') is wrong", after, NAMES[k]);
  }
}
void eval_costs(Ctx& c, cr::CostModelSum& m, const CostDict& dict, CostData& data, const Setup& s, Rng& o, bool term) {
  VectorXd x, u;
  uint64_t seed = o.u64();
  { rt::NoLib nl; x = rv(o, (Eigen::Index)s.st->get_nx()); u = rv(o, (Eigen::Index)s.nu); data.coll.fill(seed); }
  std::map<std::string, void*> names;
  for (auto& k : dict) names[k.first] = k.second.cost.get();
  if (names != data.names) {
    // a data with as many but other items is a documented precondition
    if (names.size() == data.names.size()) return;
    bool threw = false;
    try {
      if (term) m.calc(data.d, x); else m.calc(data.d, x, u);
    } catch (cr::Exception&) { threw = true; }
    c.count("fault.outdated-data");
    SIM_CHECK(c, threw, "outdated-data", "calc accepts a data made for %zu costs while the sum has %zu", data.names.size(), names.size());
    threw = false;
    try {
      if (term) m.calcDiff(data.d, x); else m.calcDiff(data.d, x, u);
    } catch (cr::Exception&) { threw = true; }
    SIM_CHECK(c, threw, "outdated-data", "calcDiff accepts a data made for %zu costs while the sum has %zu", data.names.size(), names.size());
    return;
  }
  if (term) { m.calc(data.d, x); m.calcDiff(data.d, x); } else { m.calc(data.d, x, u); m.calcDiff(data.d, x, u); }
  rt::NoLib nl;
  Coll coll(s.st, s.act);
  coll.fill(seed);
  Eigen::Index ndx = (Eigen::Index)s.st->get_ndx(), nu = (Eigen::Index)s.nu;
  double cost = 0;
  VectorXd Lx = VectorXd::Zero(ndx), Lu = VectorXd::Zero(nu);
  MatrixXd Lxx = MatrixXd::Zero(ndx, ndx), Lxu = MatrixXd::Zero(ndx, nu), Luu = MatrixXd::Zero(nu, nu);
  for (auto& k : dict) {
    if (!k.second.active) continue;
    auto d = k.second.cost->createData(&coll);
    if (term) { k.second.cost->calc(d, x); k.second.cost->calcDiff(d, x); } else { k.second.cost->calc(d, x, u); k.second.cost->calcDiff(d, x, u); }
    cost += k.second.w * d->cost;
    Lx += k.second.w * d->Lx; Lu += k.second.w * d->Lu;
    Lxx += k.second.w * d->Lxx; Lxu += k.second.w * d->Lxu; Luu += k.second.w * d->Luu;
  }
  // an undefined derivative (2-norm barrier at the origin) is NaN in both
  auto near = [](const MatrixXd& a, const MatrixXd& b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    double tol = 0;
    for (Eigen::Index i = 0; i < b.size(); i++) if (std::isfinite(b.data()[i])) tol = std::max(tol, std::fabs(b.data()[i]));
    tol = 1e-12 * (1 + tol);
    for (Eigen::Index i = 0; i < b.size(); i++) {
      double p = a.data()[i], q = b.data()[i];
      if (std::isnan(p) || std::isnan(q)) { if (std::isnan(p) != std::isnan(q)) return false; }
      else if (p != q && !(std::fabs(p - q) <= tol)) return false;
    }
    return true;
  };
  auto& d = *data.d;
  c.count(term ? "probe.terminal" : "probe.running");
  SIM_CHECK(c, near(MatrixXd::Constant(1, 1, d.cost), MatrixXd::Constant(1, 1, cost)), "sum", "cost is %.17g, the weighted sum of the %zu active costs is %.17g", d.cost, m.get_active_set().size(), cost);
  SIM_CHECK(c, near(d.Lx, Lx) && near(d.Lxx, Lxx), "sum", "Lx or Lxx is not the weighted sum of the active costs' (terminal=%d)", (int)term);
  if (!term) SIM_CHECK(c, near(d.Lu, Lu) && near(d.Lxu, Lxu) && near(d.Luu, Luu), "sum", "Lu, Lxu or Luu is not the weighted sum of the active costs'");
  if (data.shares) SIM_CHECK(c, d.Lx.data() == data.shared.Lx.data() && d.Luu.data() == data.shared.Luu.data(), "shared", "derivatives are not written to the shared data");
  c.logd(d.cost);
}
void run_costs(Ctx& c, Rng& r) {
  Rng rs = r.fork(1);
  Setup s = make_setup(rs);
  auto m = s.nu == s.st->get_nv() ? std::make_shared<cr::CostModelSum>(s.st) : std::make_shared<cr::CostModelSum>(s.st, s.nu);
  CostDict dict;
  std::vector<std::unique_ptr<CostData>> datas;
  int nops = r.range(1, 25);
  for (int k = 0; k < nops; k++) {
    Rng o = r.fork(1000 + (uint64_t)k);
    int op = (int)o.below(O_COUNT);
    bool oom = o.chance(0.2), sticky = o.chance(0.3), active = o.chance(0.6), al = o.chance(0.3), term = o.chance(0.3);
    uint64_t nth = o.range(1, 5);
    std::string name = NAMES[o.below((uint64_t)NNAMES)];
    bool f = oom && c.fault();
    if (op == O_BADADD && !c.fault()) continue;
    if (!c.op()) continue;
    c.mark((uint64_t)op * 16 + (f ? 8 : 0) + (dict.count(name) ? 4 : 0) + (active ? 2 : 0) + (al ? 1 : 0));
    c.count(OPN[op]);
    c.trace("%s '%s' active=%d%s", OPN[op], name.c_str(), (int)active, f ? " with failing allocation" : "");
    bool exists = dict.count(name) != 0, threw = false;
    std::shared_ptr<cr::CostModelAbstract> cost;
    std::shared_ptr<cr::CostItem> item;
    double w = o.chance(0.25) ? o.coarse(-3, 3) : o.coarse(0.1, 3);
    if (op == O_ADD || op == O_ADDITEM || op == O_BADADD) {
      rt::NoLib nl;
      Rng oc = o.fork(1);
      if (op == O_BADADD) {
        size_t bad = s.nu + 1;
        cost = std::make_shared<cr::CostModelResidual>(s.st, std::make_shared<SimResidualState>(s.st, rv(oc, (Eigen::Index)s.st->get_nx()), bad));
        active = oc.chance(0.5);
      } else if (!dict.empty() && oc.chance(0.2)) cost = dict.begin()->second.cost;  // one cost under two names
      else cost = make_cost(oc, s.st, s.act, s.nu, oc.range(0, 6));
      item = std::make_shared<cr::CostItem>(name, cost, w, active);
    }
    rt::Lib lib;
    Rng oa = o.fork(2);
    const std::string& arg = al ? alias(oa, m->get_costs(), m->get_active_set(), m->get_inactive_set(), name, c) : name;
    if (f) rt::arm_alloc_fail(nth, sticky);
    uint64_t before = rt::alloc_failures();
    std::unique_ptr<CostData> nd;
    try {
      switch (op) {
        case O_ADD: m->addCost(arg, cost, w, active); break;
        case O_ADDITEM: m->addCost(item); break;
        case O_BADADD: if (o.chance(0.5)) m->addCost(arg, cost, w, active); else m->addCost(item); break;
        case O_REMOVE: m->removeCost(arg); break;
        case O_STATUS: m->changeCostStatus(arg, active); break;
        case O_QUERY: m->getCostStatus(arg); break;
        case O_DATA: {
          { rt::NoLib nl; nd.reset(new CostData(s)); }
          nd->d = m->createData(&nd->coll);
          break;
        }
        case O_PRINT: { std::ostringstream os; os << *m; break; }
        case O_PARAM: if (exists) { rt::NoLib nl; m->get_costs().find(name)->second->weight = w; } break;
        default: break;
      }
    } catch (std::bad_alloc&) {
      threw = true;
      SIM_CHECK(c, f && rt::alloc_failures() > before, "spurious", "%s threw bad_alloc while memory was available", OPN[op]);
    } catch (cr::Exception& e) {
      threw = true;
      SIM_CHECK(c, op == O_BADADD, "spurious", "%s of a valid argument threw: %s", OPN[op], e.what());
    }
    rt::disarm_alloc_fail();
    if (rt::alloc_failures() > before) c.count("fault.out-of-memory");
    if (op == O_BADADD) {
      c.count("fault.wrong-dimension");
      SIM_CHECK(c, threw, "accepted", "a cost with %zu controls was added to a sum with %zu", s.nu + 1, s.nu);
    } else if (!threw) {
      rt::NoLib nl;
      if ((op == O_ADD || op == O_ADDITEM) && !exists) dict[name] = CostRef{cost, w, active};
      if (op == O_REMOVE) dict.erase(name);
      if (op == O_STATUS && exists) dict[name].active = active;
      if (op == O_PARAM && exists) dict[name].w = w;
      if (op == O_DATA) {
        for (auto& q : dict) nd->names[q.first] = q.second.cost.get();
        if (o.chance(0.5)) {
          Eigen::Index ndx = (Eigen::Index)s.st->get_ndx(), nu = (Eigen::Index)s.nu;
          nd->shared.Lx = VectorXd::Zero(ndx); nd->shared.Lu = VectorXd::Zero(nu);
          nd->shared.Lxx = MatrixXd::Zero(ndx, ndx); nd->shared.Lxu = MatrixXd::Zero(ndx, nu); nd->shared.Luu = MatrixXd::Zero(nu, nu);
          nd->d->shareMemory(&nd->shared);
          nd->shares = true;
        }
        datas.push_back(std::move(nd));
      }
    }
    check_costs(c, *m, dict, OPN[op]);
    if ((op == O_EVAL || op == O_EVAL2) && !datas.empty()) {
      Rng oe = o.fork(3);
      eval_costs(c, *m, dict, *datas[oe.below(datas.size())], s, oe, term);
    }
  }
  rt::Lib lib;
  Rng o = r.fork(5000);
  CostData d(s);
  d.d = m->createData(&d.coll);
  for (auto& q : dict) d.names[q.first] = q.second.cost.get();
  eval_costs(c, *m, dict, d, s, o, false);
  eval_costs(c, *m, dict, d, s, o, true);
  for (auto& e : datas) eval_costs(c, *m, dict, *e, s, o, o.chance(0.3));
}

// ---------------------------------------------------- constraint managers
struct ConRef {
  std::shared_ptr<cr::ConstraintModelAbstract> con;
  bool active;
};
typedef std::map<std::string, ConRef> ConDict;
struct ConData {
  Coll coll;
  std::shared_ptr<cr::ConstraintDataManager> d;
  std::map<std::string, void*> names;  // the items it was made for
  ActionDataLike shared;
  bool shares = false;
  ConData(const Setup& s) : coll(s.st, s.act) {}
};
void bounds_of(const ConDict& dict, bool term, VectorXd& lb, VectorXd& ub) {
  std::vector<double> l, u;
  for (auto& k : dict) {
    if (!k.second.active || (term && !k.second.con->get_T_constraint())) continue;
    for (size_t i = 0; i < k.second.con->get_ng(); i++) {
      l.push_back(k.second.con->get_lb()[(Eigen::Index)i]);
      u.push_back(k.second.con->get_ub()[(Eigen::Index)i]);
    }
  }
  lb = Eigen::Map<VectorXd>(l.data(), (Eigen::Index)l.size());
  ub = Eigen::Map<VectorXd>(u.data(), (Eigen::Index)u.size());
}
// fresh: no terminal evaluation or change of a constraint's own bounds since the last change or evaluation
void check_cons(Ctx& c, const cr::ConstraintModelManager& m, const ConDict& dict, bool fresh, const char* after) {
  rt::NoLib nl;
  std::set<std::string> act, inact;
  size_t ng = 0, nh = 0, ngT = 0, nhT = 0;
  for (auto& k : dict) {
    if (k.second.active) {
      act.insert(k.first);
      ng += k.second.con->get_ng(); nh += k.second.con->get_nh();
      if (k.second.con->get_T_constraint()) { ngT += k.second.con->get_ng(); nhT += k.second.con->get_nh(); }
    } else inact.insert(k.first);
  }
  SIM_CHECK(c, m.get_constraints().size() == dict.size(), "names", "after %s the manager has %zu constraints instead of %zu", after, m.get_constraints().size(), dict.size());
  auto it = m.get_constraints().begin();
  for (auto& k : dict) {
    SIM_CHECK(c, it->first == k.first && it->second && it->second->constraint == k.second.con && it->second->active == k.second.active, "items", "after %s item '%s' does not have the constraint or status it was given", after, k.first.c_str());
    ++it;
  }
  SIM_CHECK(c, m.get_ng() == ng && m.get_nh() == nh && m.get_ng_T() == ngT && m.get_nh_T() == nhT, "dimensions", "after %s ng,nh,ng_T,nh_T=%zu,%zu,%zu,%zu instead of %zu,%zu,%zu,%zu", after, m.get_ng(), m.get_nh(), m.get_ng_T(), m.get_nh_T(), ng, nh, ngT, nhT);
  SIM_CHECK(c, m.get_active_set() == act && m.get_inactive_set() == inact, "sets", "after %s the active set is %s and the inactive one %s instead of %s and %s", after, set_str(m.get_active_set()).c_str(), set_str(m.get_inactive_set()).c_str(), set_str(act).c_str(), set_str(inact).c_str());
  for (int k = 0; k < NNAMES; k++) {
    auto j = dict.find(NAMES[k]);
    SIM_CHECK(c, m.getConstraintStatus(NAMES[k]) == (j != dict.end() && j->second.active), "status", "after %s getConstraintStatus('%s') is wrong", after, NAMES[k]);
  }
  SIM_CHECK(c, (size_t)m.get_lb().size() == ng && (size_t)m.get_ub().size() == ng, "bounds", "after %s there are %d and %d bounds instead of %zu", after, (int)m.get_lb().size(), (int)m.get_ub().size(), ng);
  if (fresh) {
    VectorXd lb, ub;
    bounds_of(dict, false, lb, ub);
    SIM_CHECK(c, same(m.get_lb(), lb) && same(m.get_ub(), ub), "bounds", "after %s the bounds are [%s, %s] instead of [%s, %s]", after, str(m.get_lb()).c_str(), str(m.get_ub()).c_str(), str(lb).c_str(), str(ub).c_str());
  }
}
bool eval_cons(Ctx& c, cr::ConstraintModelManager& m, const ConDict& dict, ConData& data, const Setup& s, Rng& o, bool term, bool fresh) {
  VectorXd x, u;
  uint64_t seed = o.u64();
  { rt::NoLib nl; x = rv(o, (Eigen::Index)s.st->get_nx()); u = rv(o, (Eigen::Index)s.nu); data.coll.fill(seed); }
  std::map<std::string, void*> names;
  for (auto& k : dict) names[k.first] = k.second.con.get();
  if (names != data.names) {
    if (names.size() == data.names.size()) return fresh;
    bool threw = false;
    try {
      if (term) m.calc(data.d, x); else m.calc(data.d, x, u);
    } catch (cr::Exception&) { threw = true; }
    c.count("fault.outdated-data");
    SIM_CHECK(c, threw, "outdated-data", "calc accepts a data made for %zu constraints while the manager has %zu", data.names.size(), names.size());
    threw = false;
    try {
      if (term) m.calcDiff(data.d, x); else m.calcDiff(data.d, x, u);
    } catch (cr::Exception&) { threw = true; }
    SIM_CHECK(c, threw, "outdated-data", "calcDiff accepts a data made for %zu constraints while the manager has %zu", data.names.size(), names.size());
    return fresh;
  }
  // as documented, the data follows the set of active constraints
  if (data.shares) data.d->resize(&m, &data.shared, !term); else data.d->resize(&m, !term);
  if (term) { m.calc(data.d, x); m.calcDiff(data.d, x); } else { m.calc(data.d, x, u); m.calcDiff(data.d, x, u); }
  rt::NoLib nl;
  Coll coll(s.st, s.act);
  coll.fill(seed);
  auto& d = *data.d;
  Eigen::Index gi = 0, hi = 0;
  c.count(term ? "probe.terminal" : "probe.running");
  for (auto& k : dict) {
    auto& m1 = k.second.con;
    if (!k.second.active || (term && !m1->get_T_constraint())) continue;
    Eigen::Index ng = (Eigen::Index)m1->get_ng(), nh = (Eigen::Index)m1->get_nh();
    auto e = m1->createData(&coll);
    if (term) { m1->calc(e, x); m1->calcDiff(e, x); } else { m1->calc(e, x, u); m1->calcDiff(e, x, u); }
    SIM_CHECK(c, d.g.size() >= gi + ng && d.h.size() >= hi + nh, "stack", "g or h is too short for the active constraints");
    SIM_CHECK(c, same(d.g.segment(gi, ng), e->g) && same(d.h.segment(hi, nh), e->h), "stack", "g or h of constraint '%s' is not where the stack should have it (terminal=%d)", k.first.c_str(), (int)term);
    SIM_CHECK(c, same(d.Gx.middleRows(gi, ng), e->Gx) && same(d.Hx.middleRows(hi, nh), e->Hx), "stack", "Gx or Hx of constraint '%s' is not where the stack should have it (terminal=%d)", k.first.c_str(), (int)term);
    if (!term) SIM_CHECK(c, same(d.Gu.middleRows(gi, ng), e->Gu) && same(d.Hu.middleRows(hi, nh), e->Hu), "stack", "Gu or Hu of constraint '%s' is not where the stack should have it", k.first.c_str());
    c.logv(VectorXd(e->g));
    gi += ng;
    hi += nh;
  }
  SIM_CHECK(c, d.g.size() == gi && d.h.size() == hi && d.Gx.rows() == gi && d.Hx.rows() == hi, "stack", "g, h have %d, %d rows instead of %d, %d", (int)d.g.size(), (int)d.h.size(), (int)gi, (int)hi);
  if (data.shares) SIM_CHECK(c, d.g.data() == data.shared.g.data() && d.Hx.data() == data.shared.Hx.data(), "shared", "constraints are not written to the shared data");
  VectorXd lb, ub, lbr, ubr;
  bounds_of(dict, term, lb, ub);
  SIM_CHECK(c, m.get_lb().size() >= lb.size() && same(m.get_lb().head(lb.size()), lb) && same(m.get_ub().head(ub.size()), ub), "bounds", "after evaluating %s node the bounds are [%s, %s] instead of [%s, %s]", term ? "a terminal" : "a running", str(m.get_lb()).c_str(), str(m.get_ub()).c_str(), str(lb).c_str(), str(ub).c_str());
  if (!term) return true;
  // bounds of a manager that also serves running nodes
  bounds_of(dict, false, lbr, ubr);
  if (same(m.get_lb(), lbr) && same(m.get_ub(), ubr)) return true;
  if (fresh) c.finding("shared-bounds", "bounds", "evaluating a terminal node moved the bounds of the running constraints to [%s, %s] from [%s, %s]", str(m.get_lb()).c_str(), str(m.get_ub()).c_str(), str(lbr).c_str(), str(ubr).c_str());
  return false;
}
void run_cons(Ctx& c, Rng& r) {
  Rng rs = r.fork(1);
  Setup s = make_setup(rs);
  auto m = s.nu == s.st->get_nv() ? std::make_shared<cr::ConstraintModelManager>(s.st) : std::make_shared<cr::ConstraintModelManager>(s.st, s.nu);
  ConDict dict;
  std::vector<std::unique_ptr<ConData>> datas;
  bool fresh = true;
  int nops = r.range(1, 25);
  for (int k = 0; k < nops; k++) {
    Rng o = r.fork(1000 + (uint64_t)k);
    int op = (int)o.below(O_COUNT);
    bool oom = o.chance(0.2), sticky = o.chance(0.3), active = o.chance(0.6), al = o.chance(0.3), term = o.chance(0.3), badb = o.chance(0.4);
    uint64_t nth = o.range(1, 7);
    std::string name = NAMES[o.below((uint64_t)NNAMES)];
    bool f = oom && c.fault();
    if (op == O_ADDITEM) op = O_ADD;
    if (op == O_BADADD && !c.fault()) continue;
    if (op == O_PARAM && badb && !c.fault()) continue;
    if (!c.op()) continue;
    c.mark(1000 + (uint64_t)op * 16 + (f ? 8 : 0) + (dict.count(name) ? 4 : 0) + (active ? 2 : 0) + (al ? 1 : 0));
    c.count(OPN[op]);
    c.trace("%s '%s' active=%d%s", OPN[op], name.c_str(), (int)active, f ? " with failing allocation" : "");
    bool exists = dict.count(name) != 0, threw = false;
    std::shared_ptr<cr::ConstraintModelAbstract> con;
    VectorXd lb, ub;
    {
      rt::NoLib nl;
      Rng oc = o.fork(1);
      if (op == O_BADADD) con = std::make_shared<cr::ConstraintModelResidual>(s.st, std::make_shared<SimResidualState>(s.st, rv(oc, (Eigen::Index)s.st->get_nx()), s.nu + 1));
      else if (op == O_ADD) con = (!dict.empty() && oc.chance(0.2)) ? dict.begin()->second.con : make_constraint(oc, s.st, s.nu, oc.range(0, 4), oc.chance(0.6));
      if (op == O_PARAM && exists) {
        Eigen::Index n = (Eigen::Index)dict[name].con->get_ng();
        lb = -rpos(oc, n);
        ub = rpos(oc, n);
        if (badb && n) {
          Eigen::Index i = (Eigen::Index)oc.below((uint64_t)n);
          switch (oc.below(4)) {
            case 0: lb[i] = ub[i]; break;
            case 1: lb[i] = HUGE_VAL; ub[i] = HUGE_VAL; break;
            case 2: lb[i] = -HUGE_VAL; ub[i] = -HUGE_VAL; break;
            default: lb.conservativeResize(n + 1); lb[n] = -1; break;
          }
        }
      }
    }
    rt::Lib lib;
    Rng oa = o.fork(2);
    const std::string& arg = al ? alias(oa, m->get_constraints(), m->get_active_set(), m->get_inactive_set(), name, c) : name;
    if (f) rt::arm_alloc_fail(nth, sticky);
    uint64_t before = rt::alloc_failures();
    std::unique_ptr<ConData> nd;
    bool refused = false;
    try {
      switch (op) {
        case O_ADD: case O_BADADD: m->addConstraint(arg, con, active); break;
        case O_REMOVE: m->removeConstraint(arg); break;
        case O_STATUS: m->changeConstraintStatus(arg, active); break;
        case O_QUERY: m->getConstraintStatus(arg); break;
        case O_DATA: {
          { rt::NoLib nl; nd.reset(new ConData(s)); }
          nd->d = m->createData(&nd->coll);
          break;
        }
        case O_PRINT: { std::ostringstream os; os << *m; break; }
        case O_PARAM: {
          if (!exists || !dict[name].con->get_ng()) break;
          VectorXd l0, u0;
          { rt::NoLib nl; rt::disarm_alloc_fail(); l0 = dict[name].con->get_lb(); u0 = dict[name].con->get_ub(); }
          try {
            dict[name].con->update_bounds(lb, ub);
            if (badb) c.violation("accepted", "update_bounds accepts [%s, %s]", str(lb).c_str(), str(ub).c_str());
            if (dict[name].active) fresh = false;
            for (auto& q : dict) if (q.second.con == dict[name].con && q.second.active) fresh = false;
          } catch (cr::Exception&) {
            refused = true;
            c.count("fault.invalid-bounds");
            SIM_CHECK(c, badb, "spurious", "update_bounds refuses [%s, %s]", str(lb).c_str(), str(ub).c_str());
            SIM_CHECK(c, same(l0, dict[name].con->get_lb()) && same(u0, dict[name].con->get_ub()), "bounds", "refused bounds were stored");
          }
          break;
        }
        default: break;
      }
    } catch (std::bad_alloc&) {
      threw = true;
      SIM_CHECK(c, f && rt::alloc_failures() > before, "spurious", "%s threw bad_alloc while memory was available", OPN[op]);
    } catch (cr::Exception& e) {
      threw = true;
      SIM_CHECK(c, op == O_BADADD, "spurious", "%s of a valid argument threw: %s", OPN[op], e.what());
    }
    rt::disarm_alloc_fail();
    if (rt::alloc_failures() > before) c.count("fault.out-of-memory");
    if (op == O_BADADD) {
      c.count("fault.wrong-dimension");
      SIM_CHECK(c, threw, "accepted", "a constraint with %zu controls was added to a manager with %zu", s.nu + 1, s.nu);
    } else if (!threw) {
      rt::NoLib nl;
      bool changed = false;
      if (op == O_ADD && !exists) { dict[name] = ConRef{con, active}; changed = active; }
      if (op == O_REMOVE && exists) { changed = dict[name].active; dict.erase(name); }
      if (op == O_STATUS && exists && dict[name].active != active) { dict[name].active = active; changed = true; }
      if (changed) fresh = true;
      if (op == O_DATA) {
        for (auto& q : dict) nd->names[q.first] = q.second.con.get();
        if (o.chance(0.5)) {
          Eigen::Index ndx = (Eigen::Index)s.st->get_ndx(), nu = (Eigen::Index)s.nu, ng = (Eigen::Index)m->get_ng(), nh = (Eigen::Index)m->get_nh();
          nd->shared.g = VectorXd::Zero(ng); nd->shared.h = VectorXd::Zero(nh);
          nd->shared.Gx = MatrixXd::Zero(ng, ndx); nd->shared.Gu = MatrixXd::Zero(ng, nu); nd->shared.Hx = MatrixXd::Zero(nh, ndx); nd->shared.Hu = MatrixXd::Zero(nh, nu);
          nd->d->shareMemory(&nd->shared);
          nd->shares = true;
        }
        datas.push_back(std::move(nd));
      }
    }
    check_cons(c, *m, dict, fresh, OPN[op]);
    if ((op == O_EVAL || op == O_EVAL2) && !datas.empty()) {
      Rng oe = o.fork(3);
      fresh = eval_cons(c, *m, dict, *datas[oe.below(datas.size())], s, oe, term, fresh);
    }
  }
  rt::Lib lib;
  Rng o = r.fork(5000);
  ConData d(s);
  d.d = m->createData(&d.coll);
  for (auto& q : dict) d.names[q.first] = q.second.con.get();
  for (auto& e : datas) fresh = eval_cons(c, *m, dict, *e, s, o, o.chance(0.3), fresh);
  fresh = eval_cons(c, *m, dict, d, s, o, false, fresh);
  check_cons(c, *m, dict, true, "evaluating a running node");
  eval_cons(c, *m, dict, d, s, o, true, fresh);
}
void run(Ctx& c) {
  Rng r = c.rng.fork(1);
  rt::set_fill((int)r.below(rt::F_COUNT), r.u64());
  Quiet q;
  bool costs = r.chance(0.5);
  c.mark(costs);
  rt::NoLib nl;
  Rng r2 = r.fork(2);
  if (costs) run_costs(c, r2); else run_cons(c, r2);
}
Register reg_("C11", run);
}  // namespace
