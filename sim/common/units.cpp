// See units.hpp.
#include <algorithm>

#include "common/coll.hpp"
#include "common/units.hpp"
#include "crocoddyl/core/activations/2norm-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-flat-exp.hpp"
#include "crocoddyl/core/activations/quadratic-flat-log.hpp"
#include "crocoddyl/core/activations/quadratic.hpp"
#include "crocoddyl/core/activations/smooth-1norm.hpp"
#include "crocoddyl/core/activations/smooth-2norm.hpp"
#include "crocoddyl/core/activations/weighted-quadratic-barrier.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/core/actions/diff-lqr.hpp"
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/actuation/actuation-squashing.hpp"
#include "crocoddyl/core/actuation/squashing/smooth-sat.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/controls/poly-two-rk.hpp"
#include "crocoddyl/core/controls/poly-zero.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/activation.hpp"
#include "crocoddyl/core/numdiff/actuation.hpp"
#include "crocoddyl/core/numdiff/constraint.hpp"
#include "crocoddyl/core/numdiff/control.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/numdiff/residual.hpp"
#include "crocoddyl/core/numdiff/state.hpp"
#include "crocoddyl/core/optctrl/shooting.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/core/residuals/joint-acceleration.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "crocoddyl/core/utils/exception.hpp"
namespace sim {
bool g_copy_ctor = false;
namespace {
template <class D> std::shared_ptr<void> erase(const std::shared_ptr<D>& p) { return std::make_shared<std::shared_ptr<D>>(p); }
template <class D> const std::shared_ptr<D>& get(void* p) { return *static_cast<std::shared_ptr<D>*>(p); }

MatrixXd one(double v) { return MatrixXd::Constant(1, 1, v); }
void add(Outs& o, const Outs& e) { o.insert(o.end(), e.begin(), e.end()); }
Outs state_report(const StatePtr& s) {
  return {{"nx", one((double)s->get_nx())}, {"ndx", one((double)s->get_ndx())}, {"nq", one((double)s->get_nq())}, {"nv", one((double)s->get_nv())}, {"state lb", s->get_lb()}, {"state ub", s->get_ub()}, {"state has_limits", one(s->get_has_limits())}};
}
bool is_numdiff(const cr::ActionModelAbstract* m) { return dynamic_cast<const cr::ActionModelNumDiff*>(m); }
bool is_numdiff(const cr::DifferentialActionModelAbstract* m) { return dynamic_cast<const cr::DifferentialActionModelNumDiff*>(m); }
template <class M> Outs model_report(const M& m) {
  Outs o = state_report(m.get_state());
  // a numerical differentiation keeps the sizes it found when it was made
  const bool sizes = !is_numdiff(&m);
  add(o, {{"nu", one((double)m.get_nu())}, {"nr", one((double)m.get_nr())}});
  if (sizes) add(o, {{"ng", one((double)m.get_ng())}, {"nh", one((double)m.get_nh())}, {"ng_T", one((double)m.get_ng_T())}, {"nh_T", one((double)m.get_nh_T())}, {"g_lb", m.get_g_lb()}, {"g_ub", m.get_g_ub()}});
  add(o, {{"u_lb", m.get_u_lb()}, {"u_ub", m.get_u_ub()}, {"has_control_limits", one(m.get_has_control_limits())}});
  return o;
}
Outs activation_report(cr::ActivationModelAbstract* a) {
  Outs o{{"nr", one((double)a->get_nr())}};
  if (auto m = dynamic_cast<cr::ActivationModelQuadraticBarrier*>(a)) add(o, {{"barrier lb", m->get_bounds().lb}, {"barrier ub", m->get_bounds().ub}, {"barrier beta", one(m->get_bounds().beta)}});
  if (auto m = dynamic_cast<cr::ActivationModelWeightedQuadraticBarrier*>(a)) add(o, {{"weights", m->get_weights()}, {"barrier lb", m->get_bounds().lb}, {"barrier ub", m->get_bounds().ub}, {"barrier beta", one(m->get_bounds().beta)}});
  if (auto m = dynamic_cast<cr::ActivationModelWeightedQuad*>(a)) add(o, {{"weights", m->get_weights()}});
  if (auto m = dynamic_cast<cr::ActivationModelNumDiff*>(a)) add(o, activation_report(m->get_model().get()));
  return o;
}
Outs squashing_report(cr::SquashingModelAbstract* a) {
  Outs o{{"ns", one((double)a->get_ns())}, {"s_lb", a->get_s_lb()}, {"s_ub", a->get_s_ub()}};
  if (auto m = dynamic_cast<cr::SquashingModelSmoothSat*>(a)) { o.push_back({"smooth", one(m->get_smooth())}); o.push_back({"d", m->get_d()}); }
  return o;
}
Outs residual_report(cr::ResidualModelAbstract* m) {
  return {{"nr", one((double)m->get_nr())}, {"nu", one((double)m->get_nu())}, {"q dependent", one(m->get_q_dependent())}, {"v dependent", one(m->get_v_dependent())}, {"u dependent", one(m->get_u_dependent())}};
}
Outs cost_report(cr::CostModelAbstract* m) {
  Outs o{{"nu", one((double)m->get_nu())}};
  add(o, activation_report(m->get_activation().get()));
  add(o, residual_report(m->get_residual().get()));
  return o;
}
Outs sum_report(cr::CostModelSum* m) {
  Outs o{{"nu", one((double)m->get_nu())}, {"nr", one((double)m->get_nr())}, {"nr_total", one((double)m->get_nr_total())}, {"active costs", one((double)m->get_active_set().size())}, {"inactive costs", one((double)m->get_inactive_set().size())}};
  for (auto& e : m->get_costs()) {
    add(o, {{"cost weight", one(e.second->weight)}, {"cost status", one(e.second->active)}, {"cost status by name", one(m->getCostStatus(e.first))}, {"cost name", one((double)(hash_bytes(e.first.data(), e.first.size()) & 0xfffff))}});
    add(o, cost_report(e.second->cost.get()));
  }
  return o;
}
Outs constraint_report(cr::ConstraintModelAbstract* m) {
  return {{"nu", one((double)m->get_nu())}, {"ng", one((double)m->get_ng())}, {"nh", one((double)m->get_nh())}, {"constraint lb", m->get_lb()}, {"constraint ub", m->get_ub()}, {"terminal constraint", one(m->get_T_constraint())}, {"constraint type", one((double)m->get_type())}};
}
Outs manager_report(cr::ConstraintModelManager* m) {
  Outs o{{"nu", one((double)m->get_nu())}, {"ng", one((double)m->get_ng())}, {"nh", one((double)m->get_nh())}, {"ng_T", one((double)m->get_ng_T())}, {"nh_T", one((double)m->get_nh_T())}, {"manager lb", m->get_lb()}, {"manager ub", m->get_ub()}, {"active constraints", one((double)m->get_active_set().size())}, {"inactive constraints", one((double)m->get_inactive_set().size())}};
  for (auto& e : m->get_constraints()) {
    add(o, {{"constraint status", one(e.second->active)}, {"constraint name", one((double)(hash_bytes(e.first.data(), e.first.size()) & 0xfffff))}});
    add(o, constraint_report(e.second->constraint.get()));
  }
  return o;
}
Outs actuation_report(cr::ActuationModelAbstract* a) {
  Outs o{{"nu", one((double)a->get_nu())}};
  if (auto m = dynamic_cast<cr::ActuationModelNumDiff*>(a)) add(o, actuation_report(m->get_model().get()));
  if (auto m = dynamic_cast<cr::ActuationSquashingModel*>(a)) { add(o, squashing_report(m->get_squashing().get())); add(o, actuation_report(m->get_actuation().get())); }
  return o;
}
Outs diff_report(cr::DifferentialActionModelAbstract* a) {
  Outs o = model_report(*a);
  if (auto m = dynamic_cast<SimDAM*>(a)) {
    add(o, sum_report(m->costs.get()));
    add(o, actuation_report(m->actuation.get()));
    if (m->constraints) add(o, manager_report(m->constraints.get()));
  }
  if (auto m = dynamic_cast<cr::DifferentialActionModelNumDiff*>(a)) {
    o.push_back({"with_gauss_approx", one(m->get_with_gauss_approx())});
    add(o, diff_report(m->get_model().get()));
  }
  return o;
}
Outs action_report(cr::ActionModelAbstract* a) {
  Outs o = model_report(*a);
  if (auto m = dynamic_cast<cr::ActionModelUnicycle*>(a)) add(o, {{"dt", one(m->get_dt())}, {"cost weights", m->get_cost_weights()}});
  if (auto m = dynamic_cast<cr::IntegratedActionModelAbstract*>(a)) {
    add(o, {{"dt", one(m->get_dt())}, {"control nu", one((double)m->get_control()->get_nu())}, {"control nw", one((double)m->get_control()->get_nw())}});
    add(o, diff_report(m->get_differential().get()));
  }
  if (auto m = dynamic_cast<cr::IntegratedActionModelRK*>(a)) o.push_back({"stages", one((double)m->get_ni())});
  if (auto m = dynamic_cast<cr::ActionModelNumDiff*>(a)) {
    o.push_back({"with_gauss_approx", one(m->get_with_gauss_approx())});
    add(o, action_report(m->get_model().get()));
  }
  return o;
}
#ifdef SIM_CAST
template <class T> std::shared_ptr<T> away(const std::shared_ptr<T>& m) {
  auto f = m->template cast<float>();
  if (!f) return nullptr;
  return f->template cast<double>();
}
template <class T> std::shared_ptr<T> away_value(const std::shared_ptr<T>& m) { return std::make_shared<T>(m->template cast<float>().template cast<double>()); }
template <class T> std::shared_ptr<T> away_same(const std::shared_ptr<T>& m) { return m->template cast<double>(); }
// the LQR models are the ones that copy by hand: both ways in turn
std::shared_ptr<cr::ActionModelAbstract> away_same(const std::shared_ptr<cr::ActionModelAbstract>& m) {
  auto l = std::dynamic_pointer_cast<cr::ActionModelLQR>(m);
  if (l && g_copy_ctor) return std::make_shared<cr::ActionModelLQR>(*l);
  return m->cast<double>();
}
std::shared_ptr<cr::DifferentialActionModelAbstract> away_same(const std::shared_ptr<cr::DifferentialActionModelAbstract>& m) {
  auto l = std::dynamic_pointer_cast<cr::DifferentialActionModelLQR>(m);
  if (l && g_copy_ctor) return std::make_shared<cr::DifferentialActionModelLQR>(*l);
  return m->cast<double>();
}
template <class T> std::shared_ptr<T> away_value_same(const std::shared_ptr<T>& m) { return std::make_shared<T>(m->template cast<double>()); }
#define RECAST(T, F) \
  std::unique_ptr<Unit> recast() override { \
    auto to = F(m); \
    rt::NoLib nl; \
    std::unique_ptr<T> u(new T(*this)); \
    u->m = to; \
    return u; \
  } \
  std::unique_ptr<Unit> copy() override { \
    auto to = F##_same(m); \
    rt::NoLib nl; \
    std::unique_ptr<T> u(new T(*this)); \
    u->m = to; \
    return u; \
  }
#else
#define RECAST(T, F)
#endif

// --------------------------------------------------- parameter mutations
cr::ActivationBounds rbounds(Rng& r, Eigen::Index n) {
  VectorXd lb = -rpos(r, n), ub = rpos(r, n);
  if (n && r.chance(0.25)) (r.chance(0.5) ? lb[(Eigen::Index)r.below((uint64_t)n)] = -HUGE_VAL : ub[(Eigen::Index)r.below((uint64_t)n)] = HUGE_VAL);
  return cr::ActivationBounds(lb, ub, r.chance(0.5) ? 1. : r.coarse(0.3, 1));
}
std::string mutate_activation(Rng& r, cr::ActivationModelAbstract* a) {
  if (auto m = dynamic_cast<cr::ActivationModelWeightedQuad*>(a)) { m->set_weights(rpos(r, (Eigen::Index)m->get_nr())); return "activation weights"; }
  if (auto m = dynamic_cast<cr::ActivationModelQuadFlatExp*>(a)) { m->set_alpha(r.coarse(0.5, 3)); return "activation alpha"; }
  if (auto m = dynamic_cast<cr::ActivationModelQuadFlatLog*>(a)) { m->set_alpha(r.coarse(0.5, 3)); return "activation alpha"; }
  if (auto m = dynamic_cast<cr::ActivationModel2NormBarrier*>(a)) { m->set_alpha(r.coarse(0.25, 3)); return "activation alpha"; }
  if (auto m = dynamic_cast<cr::ActivationModelWeightedQuadraticBarrier*>(a)) {
    if (r.chance(0.5)) m->set_weights(rpos(r, (Eigen::Index)m->get_nr()));
    else m->set_bounds(rbounds(r, (Eigen::Index)m->get_nr()));
    return "activation weights or bounds";
  }
  if (auto m = dynamic_cast<cr::ActivationModelQuadraticBarrier*>(a)) { m->set_bounds(rbounds(r, (Eigen::Index)m->get_nr())); return "activation bounds"; }
  if (auto m = dynamic_cast<cr::ActivationModelNumDiff*>(a)) {
    if (r.chance(0.5)) { m->set_disturbance(r.coarse(0.5, 2) * 1e-6); return "disturbance"; }
    return mutate_activation(r, m->get_model().get());
  }
  return "";
}
std::string mutate_residual(Rng& r, cr::ResidualModelAbstract* a) {
  Eigen::Index n = (Eigen::Index)a->get_nr();
  if (auto m = dynamic_cast<cr::ResidualModelControl*>(a)) { m->set_reference(rv(r, n)); return "control reference"; }
  if (auto m = dynamic_cast<cr::ResidualModelJointEffort*>(a)) { m->set_reference(rv(r, n)); return "effort reference"; }
  if (auto m = dynamic_cast<cr::ResidualModelJointAcceleration*>(a)) { m->set_reference(rv(r, n)); return "acceleration reference"; }
  if (auto m = dynamic_cast<SimResidualState*>(a)) {
    if (m->xref.size() == n) { m->xref = rv(r, n); return "state reference"; }
    return "";
  }
  if (auto m = dynamic_cast<cr::ResidualModelNumDiff*>(a)) {
    if (r.chance(0.5)) { m->set_disturbance(r.coarse(0.5, 2) * 1e-6); return "disturbance"; }
    return mutate_residual(r, m->get_model().get());
  }
  return "";
}
std::string mutate_cost(Rng& r, cr::CostModelAbstract* c) {
  if (r.chance(0.5)) return mutate_activation(r, c->get_activation().get());
  return mutate_residual(r, c->get_residual().get());
}
template <class Map> typename Map::const_iterator pick(Rng& r, const Map& m) {
  auto it = m.begin();
  std::advance(it, (long)r.below(m.size()));
  return it;
}
std::string mutate_sum(Rng& r, cr::CostModelSum* s) {
  if (s->get_costs().empty()) return "";
  auto it = pick(r, s->get_costs());
  switch (r.below(3)) {
    case 0: s->changeCostStatus(it->first, r.chance(0.5)); return "cost status";
    case 1: it->second->weight = r.coarse(0.1, 3); return "cost weight";
    default: return mutate_cost(r, it->second->cost.get());
  }
}
std::string mutate_constraint(Rng& r, cr::ConstraintModelAbstract* c) {
  if (auto m = dynamic_cast<cr::ConstraintModelNumDiff*>(c)) {
    if (r.chance(0.5)) { m->set_disturbance(r.coarse(0.5, 2) * 1e-6); return "disturbance"; }
    return mutate_constraint(r, m->get_model().get());
  }
  if (r.chance(0.3) && c->get_ng()) {
    c->update_bounds(-rpos(r, (Eigen::Index)c->get_ng()), rpos(r, (Eigen::Index)c->get_ng()));
    return "constraint bounds";
  }
  return mutate_residual(r, c->get_residual().get());
}
std::string mutate_manager(Rng& r, cr::ConstraintModelManager* s, bool status = true) {
  if (!s || s->get_constraints().empty()) return "";
  auto it = pick(r, s->get_constraints());
  if (status && r.chance(0.5)) { s->changeConstraintStatus(it->first, r.chance(0.5)); return "constraint status"; }
  return mutate_constraint(r, it->second->constraint.get());
}
std::string mutate_squashing(Rng& r, cr::SquashingModelAbstract* a) {
  if (r.chance(0.4)) {
    Eigen::Index n = (Eigen::Index)a->get_ns();
    a->set_s_lb(-rpos(r, n));
    a->set_s_ub(rpos(r, n));
    return "squashing bounds";
  }
  if (auto q = dynamic_cast<cr::SquashingModelSmoothSat*>(a)) { q->set_smooth(r.coarse(0.1, 0.5)); return "smooth"; }
  return "";
}
std::string mutate_actuation(Rng& r, cr::ActuationModelAbstract* a) {
  if (auto m = dynamic_cast<cr::ActuationModelNumDiff*>(a)) {
    if (r.chance(0.5)) { m->set_disturbance(r.coarse(0.5, 2) * 1e-6); return "disturbance"; }
    return mutate_actuation(r, m->get_model().get());
  }
  if (auto m = dynamic_cast<cr::ActuationSquashingModel*>(a))
    return mutate_squashing(r, m->get_squashing().get());
  return "";
}
std::string mutate_diff(Rng& r, cr::DifferentialActionModelAbstract* a) {
  if (auto m = dynamic_cast<SimDAM*>(a)) {
    if (m->constraints && r.chance(0.4)) return mutate_manager(r, m->constraints.get());
    if (r.chance(0.1)) return mutate_actuation(r, m->actuation.get());
    return mutate_sum(r, m->costs.get());
  }
  if (auto m = dynamic_cast<cr::DifferentialActionModelLQR*>(a)) {
    Eigen::Index nq = (Eigen::Index)m->get_state()->get_nq(), nx = 2 * nq, nu = (Eigen::Index)m->get_nu();
    MatrixXd L = rm(r, nx + nu, nx + nu), W = L.transpose() * L + 0.25 * MatrixXd::Identity(nx + nu, nx + nu);
    m->set_LQR(rm(r, nq, nq), rm(r, nq, nq), rm(r, nq, nu), W.topLeftCorner(nx, nx), W.bottomRightCorner(nu, nu), W.topRightCorner(nx, nu), rm(r, m->get_G().rows(), nx + nu), rm(r, m->get_H().rows(), nx + nu), rv(r, nq), rv(r, nx), rv(r, nu), rv(r, m->get_g().size()), rv(r, m->get_h().size()));
    return "LQR matrices";
  }
  if (auto m = dynamic_cast<cr::DifferentialActionModelNumDiff*>(a)) {
    if (r.chance(0.4)) { m->set_disturbance(r.coarse(0.5, 2) * 1e-6); return "disturbance"; }
    return mutate_diff(r, m->get_model().get());
  }
  return "";
}
std::string mutate_action(Rng& r, cr::ActionModelAbstract* a) {
  if (r.chance(0.1) && a->get_nu()) {
    a->set_u_lb(-rpos(r, (Eigen::Index)a->get_nu()));
    a->set_u_ub(rpos(r, (Eigen::Index)a->get_nu()));
    return "control bounds";
  }
  if (auto m = dynamic_cast<cr::ActionModelUnicycle*>(a)) {
    if (r.chance(0.5)) m->set_dt(r.coarse(0.1, 0.5));
    else m->set_cost_weights(Eigen::Vector2d(r.coarse(0.5, 4), r.coarse(0.5, 4)));
    return "unicycle parameters";
  }
  if (auto m = dynamic_cast<cr::ActionModelLQR*>(a)) {
    if (r.chance(0.3)) {
      // the old one-matrix setters
      Eigen::Index n = (Eigen::Index)m->get_state()->get_nx(), k = (Eigen::Index)m->get_nu();
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
      switch (r.below(8)) {
        case 0: m->set_Fx(rm(r, n, n)); break;
        case 1: m->set_Fu(rm(r, n, k)); break;
        case 2: m->set_f0(rv(r, n)); break;
        case 3: m->set_lx(rv(r, n)); break;
        case 4: m->set_lu(rv(r, k)); break;
        case 5: m->set_Lxx(m->get_Q() + MatrixXd(rpos(r, n).asDiagonal())); break;
        case 6: m->set_Lxu(m->get_N() * r.coarse(0, 0.9)); break;
        default: m->set_Luu(m->get_R() + MatrixXd(rpos(r, k).asDiagonal()));
      }
#pragma GCC diagnostic pop
      return "one LQR matrix";
    }
    Eigen::Index nx = (Eigen::Index)m->get_state()->get_nx(), nu = (Eigen::Index)m->get_nu();
    MatrixXd L = rm(r, nx + nu, nx + nu), W = L.transpose() * L + 0.25 * MatrixXd::Identity(nx + nu, nx + nu);
    m->set_LQR(rm(r, nx, nx), rm(r, nx, nu), W.topLeftCorner(nx, nx), W.bottomRightCorner(nu, nu), W.topRightCorner(nx, nu), rm(r, m->get_G().rows(), nx + nu), rm(r, m->get_H().rows(), nx + nu), rv(r, nx), rv(r, nx), rv(r, nu), rv(r, m->get_g().size()), rv(r, m->get_h().size()));
    return "LQR matrices";
  }
  if (auto m = dynamic_cast<cr::IntegratedActionModelAbstract*>(a)) {
    if (r.chance(0.2)) { m->set_dt(r.coarse(0.05, 0.3)); return "time step"; }
    return mutate_diff(r, m->get_differential().get());
  }
  if (auto m = dynamic_cast<cr::ActionModelNumDiff*>(a)) {
    if (r.chance(0.5)) { m->set_disturbance(r.coarse(0.5, 2) * 1e-6); return "disturbance"; }
    return mutate_action(r, m->get_model().get());
  }
  return "";
}

// ------------------------------------- constructors the zoo does not use
struct LQM {
  MatrixXd A, B, Q, R, N, G, H;
  VectorXd f, q, r, g, h;
};
LQM lqm(Rng& r, Eigen::Index rows, Eigen::Index nx, Eigen::Index nu, Eigen::Index ng, Eigen::Index nh) {
  LQM p;
  MatrixXd L = rm(r, nx + nu, nx + nu), W = L.transpose() * L + 0.25 * MatrixXd::Identity(nx + nu, nx + nu);
  p.A = rm(r, rows, nx); p.B = rm(r, rows, nu);
  p.Q = W.topLeftCorner(nx, nx); p.R = W.bottomRightCorner(nu, nu); p.N = W.topRightCorner(nx, nu);
  p.G = rm(r, ng, nx + nu); p.H = rm(r, nh, nx + nu);
  p.f = rv(r, rows); p.q = rv(r, nx); p.r = rv(r, nu); p.g = rv(r, ng); p.h = rv(r, nh);
  return p;
}
std::shared_ptr<cr::DifferentialActionModelLQR> dlqr_variant(Rng& r, bool det) {
  int nq = r.range(1, 2), nu = r.range(1, nq);
  LQM p = lqm(r, nq, 2 * nq, nu, r.range(0, 2), r.range(0, 2));
  MatrixXd Aq = p.A.leftCols(nq), Av = p.A.rightCols(nq);
  int k = (int)r.below(det ? 4 : 5);
  typedef cr::DifferentialActionModelLQR M;
  switch (k) {
    case 0: return std::make_shared<M>(Aq, Av, p.B, p.Q, p.R, p.N);
    case 1: return std::make_shared<M>(Aq, Av, p.B, p.Q, p.R, p.N, p.f, p.q, p.r);
    case 2: return std::make_shared<M>((size_t)nq, (size_t)nu, r.chance(0.5));
    case 3: {
      M a(Aq, Av, p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h);
      return std::make_shared<M>(a);
    }
    default: return std::make_shared<M>(M::Random((size_t)nq, (size_t)nu, (size_t)r.range(0, 2), (size_t)r.range(0, 2)));
  }
}
ActionPtr action_variant(Rng& r, bool det, const char** name) {
  int k = (int)r.below(det ? 9 : 10);
  typedef cr::ActionModelLQR M;
  int nx = r.range(1, 4), nu = r.range(1, 3);
  LQM p = lqm(r, nx, nx, nu, r.range(0, 2), r.range(0, 2));
  switch (k) {
    case 0: *name = "LQR(A,B,Q,R,N)"; return std::make_shared<M>(p.A, p.B, p.Q, p.R, p.N);
    case 1: *name = "LQR(nx,nu)"; return std::make_shared<M>((size_t)nx, (size_t)nu, r.chance(0.5));
    case 2: {
      *name = "copied LQR";
      M a(p.A, p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h);
      return std::make_shared<M>(a);
    }
    case 3: case 4: {
      int nq = r.range(1, 2);
      std::shared_ptr<cr::DifferentialActionModelAbstract> d;
      if (r.chance(0.4)) d = dlqr_variant(r, det);
      else d = make_simdam(r, std::make_shared<cr::StateVector>(2 * nq), (size_t)r.range(1, nq), r.chance(0.6));
      bool cr_ = r.chance(0.5);
      if (k == 3) { *name = "Euler(no parametrisation)"; return std::make_shared<cr::IntegratedActionModelEuler>(d, r.chance(0.1) ? 0. : 0.125, cr_); }
      *name = "RK(no parametrisation)";
      return std::make_shared<cr::IntegratedActionModelRK>(d, r.chance(0.3) ? cr::RKType::two : r.chance(0.5) ? cr::RKType::three : cr::RKType::four, 0.125, cr_);
    }
    case 5: {
      *name = "copied unicycle";
      cr::ActionModelUnicycle a;
      a.set_dt(0.2);
      return std::make_shared<cr::ActionModelUnicycle>(a);
    }
    case 6: *name = "numdiff unicycle with Gauss approximation"; return std::make_shared<cr::ActionModelNumDiff>(std::make_shared<cr::ActionModelUnicycle>(), true);
    case 7: {
      *name = "numdiff of integrated model with Gauss approximation";
      int nq = r.range(1, 2);
      auto d = make_simdam(r, std::make_shared<cr::StateVector>(2 * nq), (size_t)r.range(1, nq), false);
      return std::make_shared<cr::ActionModelNumDiff>(std::make_shared<cr::IntegratedActionModelEuler>(d, 0.125, true), true);
    }
    case 8: {
      *name = "Euler of numdiff";
      auto d = std::make_shared<cr::DifferentialActionModelNumDiff>(dlqr_variant(r, det), false);
      return std::make_shared<cr::IntegratedActionModelEuler>(d, 0.125);
    }
    default: *name = "random LQR"; return std::make_shared<M>(M::Random((size_t)nx, (size_t)nu, (size_t)r.range(0, 2), (size_t)r.range(0, 2)));
  }
}
// ------------------------------------------------------------------ units
struct ActionUnit : Unit {
  NodeSpec spec;
  ActionPtr m;
  std::string n;
  ActionUnit(ActionPtr a, const char* nm) : m(a), n(nm) {
    manager = true;
    nx = (Eigen::Index)m->get_state()->get_nx();
    nu = (Eigen::Index)m->get_nu();
  }
  explicit ActionUnit(const NodeSpec& s) : spec(s), m(make_action(s)), n(kind_name(s.kind)) {
    nx = (Eigen::Index)m->get_state()->get_nx();
    nu = (Eigen::Index)m->get_nu();
    so2 = s.kind == K_SO2;
    manager = s.cons;
  }
  std::string name() override { return strf("action %s(nu=%d)", n.c_str(), (int)nu); }
  StatePtr state() override { return m->get_state(); }
  Outs report() override { return action_report(m.get()); }
  RECAST(ActionUnit, away)
  std::shared_ptr<void> make() override { return erase(m->createData()); }
  void calc(void* d, const Point& p, bool t) override { if (t) m->calc(get<cr::ActionDataAbstract>(d), p.x); else m->calc(get<cr::ActionDataAbstract>(d), p.x, p.u); }
  void diff(void* d, const Point& p, bool t) override { if (t) m->calcDiff(get<cr::ActionDataAbstract>(d), p.x); else m->calcDiff(get<cr::ActionDataAbstract>(d), p.x, p.u); }
  Outs outs(void* v, bool t, bool di) override {
    auto& d = *get<cr::ActionDataAbstract>(v);
    Outs o{{"cost", MatrixXd::Constant(1, 1, d.cost)}, {"xnext", d.xnext}, {"g", d.g}, {"h", d.h}};
    o.push_back({"r", d.r});
    if (di) {
      for (auto& e : Outs{{"Lx", d.Lx}, {"Lxx", d.Lxx}, {"Gx", d.Gx}, {"Hx", d.Hx}}) o.push_back(e);
      if (!t) for (auto& e : Outs{{"Fx", d.Fx}, {"Fu", d.Fu}, {"Lu", d.Lu}, {"Lxu", d.Lxu}, {"Luu", d.Luu}, {"Gu", d.Gu}, {"Hu", d.Hu}}) o.push_back(e);
    }
    return o;
  }
  std::string mutate(Rng& r) override { return mutate_action(r, m.get()); }
  bool has_extra() override { return nu > 0; }
  Outs extra(void* v, const Point& p) override {
    VectorXd u = VectorXd::Zero(nu);
    m->quasiStatic(get<cr::ActionDataAbstract>(v), u, p.x, 3, 1e-9);
    return {{"quasiStatic u", u}};
  }
};
struct DiffUnit : Unit {
  std::shared_ptr<cr::DifferentialActionModelAbstract> m;
  std::string n;
  DiffUnit(Rng& r, int which, bool det) {
    if (r.chance(0.3)) {
      m = dlqr_variant(r, det);
      n = "DifferentialActionModelLQR (other constructor)";
      finish(r);
      return;
    }
    int nq = r.range(1, 2), nuu = r.range(1, nq);
    if (which % 2 == 0) {
      m = make_simdam(r, std::make_shared<cr::StateVector>(2 * nq), (size_t)nuu, r.chance(0.6));
      n = "SimDAM";
    } else {
      MatrixXd L = rm(r, 2 * nq + nuu, 2 * nq + nuu), W = L.transpose() * L + 0.25 * MatrixXd::Identity(2 * nq + nuu, 2 * nq + nuu);
      int ng = r.range(0, 2), nh = r.range(0, 2), nx_ = 2 * nq;
      m = std::make_shared<cr::DifferentialActionModelLQR>(rm(r, nq, nq), rm(r, nq, nq), rm(r, nq, nuu), W.topLeftCorner(nx_, nx_), W.bottomRightCorner(nuu, nuu), W.topRightCorner(nx_, nuu), rm(r, ng, nx_ + nuu), rm(r, nh, nx_ + nuu), rv(r, nq), rv(r, nx_), rv(r, nuu), rv(r, ng), rv(r, nh));
      n = "DifferentialActionModelLQR";
    }
    finish(r);
  }
  void finish(Rng& r) {
    manager = true;
    // Gauss approximation is for models whose derivative of the residual is meaningful
    if (r.chance(0.3)) { m = std::make_shared<cr::DifferentialActionModelNumDiff>(m, m->get_nr() > 1 && r.chance(0.5)); n += " (numdiff)"; }
    nx = (Eigen::Index)m->get_state()->get_nx();
    nu = (Eigen::Index)m->get_nu();
  }
  std::string name() override { return "differential action " + n; }
  StatePtr state() override { return m->get_state(); }
  Outs report() override { return diff_report(m.get()); }
  RECAST(DiffUnit, away)
  std::shared_ptr<void> make() override { return erase(m->createData()); }
  void calc(void* d, const Point& p, bool t) override { if (t) m->calc(get<cr::DifferentialActionDataAbstract>(d), p.x); else m->calc(get<cr::DifferentialActionDataAbstract>(d), p.x, p.u); }
  void diff(void* d, const Point& p, bool t) override { if (t) m->calcDiff(get<cr::DifferentialActionDataAbstract>(d), p.x); else m->calcDiff(get<cr::DifferentialActionDataAbstract>(d), p.x, p.u); }
  Outs outs(void* v, bool t, bool di) override {
    auto& d = *get<cr::DifferentialActionDataAbstract>(v);
    Outs o{{"cost", MatrixXd::Constant(1, 1, d.cost)}, {"g", d.g}, {"h", d.h}};
    o.push_back({"r", d.r});
    if (!t) o.push_back({"xout", d.xout});
    if (di) {
      for (auto& e : Outs{{"Lx", d.Lx}, {"Lxx", d.Lxx}, {"Gx", d.Gx}, {"Hx", d.Hx}}) o.push_back(e);
      if (!t) for (auto& e : Outs{{"Fx", d.Fx}, {"Fu", d.Fu}, {"Lu", d.Lu}, {"Lxu", d.Lxu}, {"Luu", d.Luu}, {"Gu", d.Gu}, {"Hu", d.Hu}}) o.push_back(e);
    }
    return o;
  }
  std::string mutate(Rng& r) override { return mutate_diff(r, m.get()); }
  bool has_extra() override { return true; }
  Outs extra(void* v, const Point& p) override {
    VectorXd u = VectorXd::Zero(nu);
    m->quasiStatic(get<cr::DifferentialActionDataAbstract>(v), u, p.x, 3, 1e-9);
    return {{"quasiStatic u", u}};
  }
};
struct SharedUnit : Unit {
  StatePtr st;
  std::shared_ptr<cr::ActuationModelAbstract> act;
  explicit SharedUnit(Rng& r) {
    int nq = r.range(1, 2);
    nx = 2 * nq;
    nu = r.range(1, nq);
    st = std::make_shared<cr::StateVector>(2 * nq);
    act = std::make_shared<SimActuation>(st, (size_t)nu, r.u64());
  }
};
template <class Data> struct WithColl {
  Coll coll;
  std::shared_ptr<Data> d;
  WithColl(StatePtr s, std::shared_ptr<cr::ActuationModelAbstract> a) : coll(s, a) {}
};
struct SumUnit : SharedUnit {
  std::shared_ptr<cr::CostModelSum> m;
  typedef WithColl<cr::CostDataSum> W;
  explicit SumUnit(Rng& r) : SharedUnit(r) {
    if (nu == (Eigen::Index)st->get_nv() && r.chance(0.5)) m = std::make_shared<cr::CostModelSum>(st);
    else m = std::make_shared<cr::CostModelSum>(st, (size_t)nu);
    int n = r.range(1, 4);
    for (int i = 0; i < n; i++) m->addCost(strf("%c%d", (char)('a' + r.below(26)), i), make_cost(r, st, act, (size_t)nu, r.range(0, 6)), r.coarse(0.05, 2), r.chance(0.7));
  }
  std::string name() override { return strf("cost sum of %zu", m->get_costs().size()); }
  Outs report() override { return sum_report(m.get()); }
  RECAST(SumUnit, away_value)
  std::shared_ptr<void> make() override {
    auto w = std::make_shared<W>(st, act);
    w->d = m->createData(&w->coll);
    return w;
  }
  void calc(void* v, const Point& p, bool t) override { W* w = static_cast<W*>(v); w->coll.fill(p.seed); if (t) m->calc(w->d, p.x); else m->calc(w->d, p.x, p.u); }
  void diff(void* v, const Point& p, bool t) override { W* w = static_cast<W*>(v); if (t) m->calcDiff(w->d, p.x); else m->calcDiff(w->d, p.x, p.u); }
  Outs outs(void* v, bool t, bool di) override {
    auto& d = *static_cast<W*>(v)->d;
    Outs o{{"cost", MatrixXd::Constant(1, 1, d.cost)}};
    if (di) {
      o.push_back({"Lx", d.Lx}); o.push_back({"Lxx", d.Lxx});
      if (!t) { o.push_back({"Lu", d.Lu}); o.push_back({"Lxu", d.Lxu}); o.push_back({"Luu", d.Luu}); }
    }
    return o;
  }
  std::string mutate(Rng& r) override { return mutate_sum(r, m.get()); }
};
struct CostUnit : SharedUnit {
  std::shared_ptr<cr::CostModelAbstract> m;
  typedef WithColl<cr::CostDataAbstract> W;
  explicit CostUnit(Rng& r) : SharedUnit(r) { m = make_cost(r, st, act, (size_t)nu, r.range(0, 6)); }
  std::string name() override { return strf("cost on residual %s", typeid(*m->get_residual()).name()); }
  Outs report() override { return cost_report(m.get()); }
  RECAST(CostUnit, away)
  std::shared_ptr<void> make() override {
    auto w = std::make_shared<W>(st, act);
    w->d = m->createData(&w->coll);
    return w;
  }
  void calc(void* v, const Point& p, bool t) override { W* w = static_cast<W*>(v); w->coll.fill(p.seed); if (t) m->calc(w->d, p.x); else m->calc(w->d, p.x, p.u); }
  void diff(void* v, const Point& p, bool t) override { W* w = static_cast<W*>(v); if (t) m->calcDiff(w->d, p.x); else m->calcDiff(w->d, p.x, p.u); }
  Outs outs(void* v, bool t, bool di) override {
    auto& d = *static_cast<W*>(v)->d;
    Outs o{{"cost", MatrixXd::Constant(1, 1, d.cost)}};
    if (di) {
      o.push_back({"Lx", d.Lx}); o.push_back({"Lxx", d.Lxx});
      if (!t) { o.push_back({"Lu", d.Lu}); o.push_back({"Lxu", d.Lxu}); o.push_back({"Luu", d.Luu}); }
    }
    return o;
  }
  std::string mutate(Rng& r) override { return mutate_cost(r, m.get()); }
};
struct ManagerUnit : SharedUnit {
  std::shared_ptr<cr::ConstraintModelManager> m;
  typedef WithColl<cr::ConstraintDataManager> W;
  explicit ManagerUnit(Rng& r) : SharedUnit(r) {
    manager = true;
    if (nu == (Eigen::Index)st->get_nv() && r.chance(0.5)) m = std::make_shared<cr::ConstraintModelManager>(st);
    else m = std::make_shared<cr::ConstraintModelManager>(st, (size_t)nu);
    int n = r.range(1, 4);
    for (int i = 0; i < n; i++) m->addConstraint(strf("%c%d", (char)('a' + r.below(26)), i), make_constraint(r, st, (size_t)nu, r.range(0, 4), r.chance(0.6)), r.chance(0.8));
  }
  std::string name() override { return strf("constraint manager of %zu", m->get_constraints().size()); }
  Outs report() override { return manager_report(m.get()); }
  RECAST(ManagerUnit, away_value)
  std::shared_ptr<void> make() override {
    auto w = std::make_shared<W>(st, act);
    w->d = m->createData(&w->coll);
    return w;
  }
  void calc(void* v, const Point& p, bool t) override { W* w = static_cast<W*>(v); w->coll.fill(p.seed); if (t) m->calc(w->d, p.x); else m->calc(w->d, p.x, p.u); }
  void diff(void* v, const Point& p, bool t) override { W* w = static_cast<W*>(v); if (t) m->calcDiff(w->d, p.x); else m->calcDiff(w->d, p.x, p.u); }
  Outs outs(void* v, bool t, bool di) override {
    auto& d = *static_cast<W*>(v)->d;
    Eigen::Index ng = (Eigen::Index)(t ? m->get_ng_T() : m->get_ng()), nh = (Eigen::Index)(t ? m->get_nh_T() : m->get_nh());
    Outs o{{"g", d.g.head(ng)}, {"h", d.h.head(nh)}};
    if (di) {
      o.push_back({"Gx", d.Gx.topRows(ng)}); o.push_back({"Hx", d.Hx.topRows(nh)});
      if (!t) { o.push_back({"Gu", d.Gu.topRows(ng)}); o.push_back({"Hu", d.Hu.topRows(nh)}); }
    }
    return o;
  }
  // the dimension of a data follows the status through resize() (C11)
  std::string mutate(Rng& r) override { return mutate_manager(r, m.get(), false); }
};
struct ConstraintUnit : SharedUnit {
  std::shared_ptr<cr::ConstraintModelAbstract> m;
  typedef WithColl<cr::ConstraintDataAbstract> W;
  bool nd = false;
  explicit ConstraintUnit(Rng& r) : SharedUnit(r) {
    m = make_constraint(r, st, (size_t)nu, r.range(0, 4), true);
    if (r.chance(0.4)) { m = std::make_shared<cr::ConstraintModelNumDiff>(m); nd = true; }
  }
  std::string name() override { return strf("constraint on residual %s%s", nd ? "" : typeid(*m->get_residual()).name(), nd ? " (numdiff)" : ""); }
  Outs report() override { return constraint_report(m.get()); }
  RECAST(ConstraintUnit, away)
  std::shared_ptr<void> make() override {
    auto w = std::make_shared<W>(st, act);
    w->d = m->createData(&w->coll);
    return w;
  }
  bool has_term() override { return m->get_T_constraint(); }
  void calc(void* v, const Point& p, bool t) override { W* w = static_cast<W*>(v); w->coll.fill(p.seed); if (t) m->calc(w->d, p.x); else m->calc(w->d, p.x, p.u); }
  void diff(void* v, const Point& p, bool t) override { W* w = static_cast<W*>(v); if (t) m->calcDiff(w->d, p.x); else m->calcDiff(w->d, p.x, p.u); }
  Outs outs(void* v, bool t, bool di) override {
    auto& d = *static_cast<W*>(v)->d;
    Outs o{{"g", d.g}, {"h", d.h}};
    if (di) {
      o.push_back({"Gx", d.Gx}); o.push_back({"Hx", d.Hx});
      if (!t) { o.push_back({"Gu", d.Gu}); o.push_back({"Hu", d.Hu}); }
    }
    return o;
  }
#ifdef SIM_CAST
  std::string mutate_more(Rng& r) override {
    if (nd) return "";
    if (r.chance(0.5) && (m->get_ng() || m->get_lb().size())) { m->remove_bounds(); return "bounds removed"; }
    if (m->get_lb().size()) { m->update_bounds(-rpos(r, m->get_lb().size()), rpos(r, m->get_lb().size())); return "bounds set"; }
    return "";
  }
#endif
  std::string mutate(Rng& r) override { return mutate_constraint(r, m.get()); }
};
struct ResidualUnit : SharedUnit {
  std::shared_ptr<cr::ResidualModelAbstract> m;
  typedef WithColl<cr::ResidualDataAbstract> W;
  bool nd = false;
  explicit ResidualUnit(Rng& r) : SharedUnit(r) {
    const size_t n = (size_t)nu;
    // constructors that take the number of velocities as that of the controls
    const bool own = n == st->get_nv() && r.chance(0.4);
    switch (r.below(8)) {
      case 4: m = own ? std::make_shared<cr::ResidualModelControl>(st) : std::make_shared<cr::ResidualModelControl>(st, n); break;
      case 5: m = own ? r.chance(0.5) ? std::make_shared<cr::ResidualModelJointAcceleration>(st) : std::make_shared<cr::ResidualModelJointAcceleration>(st, rv(r, nu)) : std::make_shared<cr::ResidualModelJointAcceleration>(st, n); break;
      case 6: m = own ? r.chance(0.5) ? std::make_shared<cr::ResidualModelJointEffort>(st, act) : std::make_shared<cr::ResidualModelJointEffort>(st, act, rv(r, nu)) : std::make_shared<cr::ResidualModelJointEffort>(st, act, n); break;
      case 0: m = std::make_shared<cr::ResidualModelControl>(st, rv(r, nu)); break;
      case 1: m = std::make_shared<cr::ResidualModelJointAcceleration>(st, rv(r, (Eigen::Index)st->get_nv()), (size_t)nu); break;
      case 2: m = std::make_shared<cr::ResidualModelJointEffort>(st, act, rv(r, nu), (size_t)nu, r.chance(0.5)); break;
      default: m = std::make_shared<SimResidualState>(st, rv(r, nx), (size_t)nu);
    }
    if (r.chance(0.4)) { m = std::make_shared<cr::ResidualModelNumDiff>(m); nd = true; }
  }
  std::string name() override { return strf("residual %s%s", nd ? typeid(*std::static_pointer_cast<cr::ResidualModelNumDiff>(m)->get_model()).name() : typeid(*m).name(), nd ? " (numdiff)" : ""); }
  Outs report() override { return residual_report(m.get()); }
  RECAST(ResidualUnit, away)
  std::shared_ptr<void> make() override {
    auto w = std::make_shared<W>(st, act);
    w->d = m->createData(&w->coll);
    return w;
  }
  void calc(void* v, const Point& p, bool t) override { W* w = static_cast<W*>(v); w->coll.fill(p.seed); if (t) m->calc(w->d, p.x); else m->calc(w->d, p.x, p.u); }
  void diff(void* v, const Point& p, bool t) override { W* w = static_cast<W*>(v); if (t) m->calcDiff(w->d, p.x); else m->calcDiff(w->d, p.x, p.u); }
  Outs outs(void* v, bool t, bool di) override {
    auto& d = *static_cast<W*>(v)->d;
    Outs o{{"r", d.r}};
    if (di) {
      if (m->get_q_dependent() || m->get_v_dependent()) o.push_back({"Rx", d.Rx});
      if (!t) o.push_back({"Ru", d.Ru});
    }
    return o;
  }
  Outs fresh_outs(void* v) override {
    auto& d = *static_cast<W*>(v)->d;
    return {{"r", d.r}, {"Rx", d.Rx}, {"Ru", d.Ru}, {"Arr_Rx", d.Arr_Rx}, {"Arr_Ru", d.Arr_Ru}};
  }
  std::string mutate(Rng& r) override { return mutate_residual(r, m.get()); }
};
struct ActuationUnit : Unit {
  std::shared_ptr<cr::ActuationModelAbstract> m;
  std::string n;
  explicit ActuationUnit(Rng& r) {
    int nq = r.range(1, 2);
    nx = 2 * nq;
    nu = r.chance(0.5) ? nq : r.range(1, nq);
    StatePtr st = std::make_shared<cr::StateVector>(2 * nq);
    m = std::make_shared<SimActuation>(st, (size_t)nu, r.u64());
    n = "plain";
    if (r.chance(0.6)) { m = std::make_shared<cr::ActuationSquashingModel>(m, std::make_shared<cr::SquashingModelSmoothSat>(-rpos(r, nu), rpos(r, nu), (size_t)nu), (size_t)nu); n = "squashing"; }
    if (r.chance(0.4)) { m = std::make_shared<cr::ActuationModelNumDiff>(m); n += " (numdiff)"; }
  }
  std::string name() override { return "actuation " + n; }
  Outs report() override { return actuation_report(m.get()); }
  RECAST(ActuationUnit, away)
  std::shared_ptr<void> make() override { return erase(m->createData()); }
  bool has_term() override { return false; }
  void calc(void* d, const Point& p, bool) override { m->calc(get<cr::ActuationDataAbstract>(d), p.x, p.u); }
  void diff(void* d, const Point& p, bool) override { m->calcDiff(get<cr::ActuationDataAbstract>(d), p.x, p.u); }
  Outs outs(void* v, bool, bool di) override {
    auto& d = *get<cr::ActuationDataAbstract>(v);
    Outs o{{"tau", d.tau}};
    if (di) { o.push_back({"dtau_dx", d.dtau_dx}); o.push_back({"dtau_du", d.dtau_du}); }
    return o;
  }
  Outs fresh_outs(void* v) override {
    auto& d = *get<cr::ActuationDataAbstract>(v);
    Outs o = outs(v, false, true);
    o.push_back({"u", d.u});
    o.push_back({"Mtau", d.Mtau});
    for (bool b : d.tau_set) o.push_back({"tau_set", MatrixXd::Constant(1, 1, b)});
    return o;
  }
  bool has_extra() override { return true; }
  Outs extra(void* v, const Point& p) override {
    auto& d = get<cr::ActuationDataAbstract>(v);
    m->torqueTransform(d, p.x, p.u);
    Outs o{{"Mtau", d->Mtau}};
    if (nu == (Eigen::Index)m->get_state()->get_nv()) {
      Rng r(p.seed);
      m->commands(d, p.x, rv(r, (Eigen::Index)m->get_state()->get_nv()));
      o.push_back({"commands u", d->u});
    }
    return o;
  }
  std::string mutate(Rng& r) override { return mutate_actuation(r, m.get()); }
};
struct ControlUnit : Unit {
  std::shared_ptr<cr::ControlParametrizationModelAbstract> m;
  std::string n;
  Eigen::Index nw;
  explicit ControlUnit(Rng& r) {
    nw = r.range(1, 3);
    switch (r.below(4)) {
      case 0: m = std::make_shared<cr::ControlParametrizationModelPolyZero>((size_t)nw); n = "PolyZero"; break;
      case 1: m = std::make_shared<cr::ControlParametrizationModelPolyOne>((size_t)nw); n = "PolyOne"; break;
      case 2: m = std::make_shared<cr::ControlParametrizationModelPolyTwoRK>((size_t)nw, cr::RKType::three); n = "PolyTwoRK3"; break;
      default: m = std::make_shared<cr::ControlParametrizationModelPolyTwoRK>((size_t)nw, cr::RKType::four); n = "PolyTwoRK4"; break;
    }
    nu = (Eigen::Index)m->get_nu();
    nx = 1;
    if (r.chance(0.4)) { m = std::make_shared<cr::ControlParametrizationModelNumDiff>(m); n += " (numdiff)"; }
  }
  std::string name() override { return "control parametrisation " + n; }
  Outs report() override { return Outs{{"nw", one((double)m->get_nw())}, {"nu", one((double)m->get_nu())}}; }
  RECAST(ControlUnit, away)
  std::shared_ptr<void> make() override { return erase(m->createData()); }
  bool has_term() override { return false; }
  void calc(void* d, const Point& p, bool) override { m->calc(get<cr::ControlParametrizationDataAbstract>(d), p.t, p.u); }
  void diff(void* d, const Point& p, bool) override { m->calcDiff(get<cr::ControlParametrizationDataAbstract>(d), p.t, p.u); }
  Outs outs(void* v, bool, bool di) override {
    auto& d = get<cr::ControlParametrizationDataAbstract>(v);
    Outs o{{"w", d->w}};
    if (di) {
      o.push_back({"dw_du", d->dw_du});
      Rng r(17);
      MatrixXd A = rm(r, 2, nw), out = MatrixXd::Zero(2, nu), B = rm(r, nw, 2), out2 = MatrixXd::Zero(nu, 2);
      m->multiplyByJacobian(d, A, out);
      m->multiplyJacobianTransposeBy(d, B, out2);
      o.push_back({"A*J", out});
      o.push_back({"J'*B", out2});
      m->multiplyByJacobian(d, A, out, cr::addto);
      m->multiplyJacobianTransposeBy(d, B, out2, cr::addto);
      o.push_back({"2 A*J", out});
      o.push_back({"2 J'*B", out2});
      m->multiplyByJacobian(d, A * 0.5, out, cr::rmfrom);
      m->multiplyJacobianTransposeBy(d, B * 0.5, out2, cr::rmfrom);
      o.push_back({"1.5 A*J", out});
      o.push_back({"1.5 J'*B", out2});
      o.push_back({"A*J (returned)", m->multiplyByJacobian_J(d, A)});
      o.push_back({"J'*B (returned)", m->multiplyJacobianTransposeBy_J(d, B)});
    }
    return o;
  }
  bool has_extra() override { return true; }
  Outs extra(void* v, const Point& p) override {
    auto& d = get<cr::ControlParametrizationDataAbstract>(v);
    Rng r(p.seed);
    m->params(d, p.t, rv(r, nw));
    return {{"params u", d->u}};
  }
  std::string mutate(Rng& r) override {
    if (auto q = dynamic_cast<cr::ControlParametrizationModelNumDiff*>(m.get())) { q->set_disturbance(r.coarse(0.5, 2) * 1e-6); return "disturbance"; }
    return "";
  }
};
struct ActivationUnit : Unit {
  std::shared_ptr<cr::ActivationModelAbstract> m;
  std::string n;
  explicit ActivationUnit(Rng& r) {
    nu = r.range(1, 4);
    nx = 1;
    size_t k = (size_t)nu;
    switch (r.below(10)) {
      case 0: m = std::make_shared<cr::ActivationModelQuad>(k); n = "Quad"; break;
      case 1: case 2: m = std::make_shared<cr::ActivationModelWeightedQuad>(rpos(r, nu)); n = "WeightedQuad"; break;
      case 3: m = std::make_shared<cr::ActivationModelSmooth1Norm>(k, r.coarse(0.5, 3)); n = "Smooth1Norm"; break;
      case 4: m = std::make_shared<cr::ActivationModelSmooth2Norm>(k, r.coarse(0.5, 3)); n = "Smooth2Norm"; break;
      case 5: m = std::make_shared<cr::ActivationModelQuadFlatExp>(k, r.coarse(0.5, 3)); n = "QuadFlatExp"; break;
      case 6: m = std::make_shared<cr::ActivationModelQuadFlatLog>(k, r.coarse(0.5, 3)); n = "QuadFlatLog"; break;
      case 7: m = std::make_shared<cr::ActivationModel2NormBarrier>(k, r.coarse(0.5, 2), r.chance(0.5)); n = "2NormBarrier"; break;
      case 8: m = std::make_shared<cr::ActivationModelQuadraticBarrier>(rbounds(r, nu)); n = "QuadraticBarrier"; break;
      default: m = std::make_shared<cr::ActivationModelWeightedQuadraticBarrier>(rbounds(r, nu), rpos(r, nu)); n = "WeightedQuadraticBarrier"; break;
    }
    if (r.chance(0.25)) { m = std::make_shared<cr::ActivationModelNumDiff>(m); n += " (numdiff)"; }
  }
  std::string name() override { return "activation " + n; }
  Outs report() override { return activation_report(m.get()); }
  RECAST(ActivationUnit, away)
  std::shared_ptr<void> make() override { return erase(m->createData()); }
  bool has_term() override { return false; }
  void calc(void* d, const Point& p, bool) override { m->calc(get<cr::ActivationDataAbstract>(d), p.u); }
  void diff(void* d, const Point& p, bool) override { m->calcDiff(get<cr::ActivationDataAbstract>(d), p.u); }
  Outs outs(void* v, bool, bool di) override {
    auto& d = *get<cr::ActivationDataAbstract>(v);
    Outs o{{"a_value", MatrixXd::Constant(1, 1, d.a_value)}};
    if (di) { o.push_back({"Ar", d.Ar}); o.push_back({"Arr", MatrixXd(d.Arr)}); }
    return o;
  }
  std::string mutate(Rng& r) override { return mutate_activation(r, m.get()); }
};

struct SquashUnit : Unit {
  std::shared_ptr<cr::SquashingModelAbstract> m;
  explicit SquashUnit(Rng& r) {
    nx = 1;
    nu = r.range(1, 3);
    m = std::make_shared<cr::SquashingModelSmoothSat>(-rpos(r, nu), rpos(r, nu), (size_t)nu);
  }
  std::string name() override { return "squashing"; }
  Outs report() override { return squashing_report(m.get()); }
  RECAST(SquashUnit, away)
  std::shared_ptr<void> make() override { return erase(m->createData()); }
  bool has_term() override { return false; }
  void calc(void* d, const Point& p, bool) override { m->calc(get<cr::SquashingDataAbstract>(d), p.u); }
  void diff(void* d, const Point& p, bool) override { m->calcDiff(get<cr::SquashingDataAbstract>(d), p.u); }
  Outs outs(void* v, bool, bool di) override {
    auto& d = *get<cr::SquashingDataAbstract>(v);
    Outs o{{"u", d.u}};
    if (di) o.push_back({"du_ds", d.du_ds});
    return o;
  }
  std::string mutate(Rng& r) override { return mutate_squashing(r, m.get()); }
};
// a state has no data; what its methods write is kept in one
struct StateUnit : Unit {
  StatePtr m;
  bool nd = false;
  struct D { VectorXd dx, xn; MatrixXd j[4], t; };
  explicit StateUnit(Rng& r) {
    so2 = r.chance(0.3);
    if (so2) m = std::make_shared<SimSO2State>();
    else m = std::make_shared<cr::StateVector>((size_t)r.range(1, 4));
    if (r.chance(0.6)) { m = std::make_shared<cr::StateNumDiff>(m); nd = true; }
    nx = (Eigen::Index)m->get_nx();
    nu = (Eigen::Index)m->get_ndx();
  }
  std::string name() override { return strf("state %s%s", so2 ? "SO2" : "vector", nd ? " (numdiff)" : ""); }
  StatePtr state() override { return m; }
  Outs report() override { return state_report(m); }
  RECAST(StateUnit, away)
  std::shared_ptr<void> make() override {
    auto d = std::make_shared<D>();
    d->dx = VectorXd::Zero(nu); d->xn = VectorXd::Zero(nx);
    for (auto& j : d->j) j = MatrixXd::Zero(nu, nu);
    return d;
  }
  bool has_term() override { return false; }
  void calc(void* v, const Point& p, bool) override {
    D& d = *static_cast<D*>(v);
    m->integrate(p.x, p.u, d.xn);
    m->diff(p.x, d.xn, d.dx);
  }
  void diff(void* v, const Point& p, bool) override {
    D& d = *static_cast<D*>(v);
    VectorXd xn(nx);
    m->integrate(p.x, p.u, xn);
    cr::Jcomponent c = p.seed % 3 == 0 ? cr::first : p.seed % 3 == 1 ? cr::second : cr::both;
    for (auto& j : d.j) if (c != cr::both) j.setZero();
    m->Jdiff(p.x, xn, d.j[0], d.j[1], c);
    m->Jintegrate(p.x, p.u, d.j[2], d.j[3], c, cr::setto);
  }
  Outs outs(void* v, bool, bool di) override {
    D& d = *static_cast<D*>(v);
    Outs o{{"dx", d.dx}, {"xnext", d.xn}};
    if (di) for (auto& j : d.j) o.push_back({"J", j});
    return o;
  }
  bool has_extra() override { return true; }
  Outs extra(void*, const Point& p) override {
    VectorXd y = m->integrate_x(p.x, p.u);
    Outs o{{"integrate_x", y}, {"diff_dx", m->diff_dx(p.x, y)}};
    for (auto& j : m->Jdiff_Js(p.x, y, cr::both)) o.push_back({"Jdiff_Js", j});
    for (auto& j : m->Jintegrate_Js(p.x, p.u, cr::both)) o.push_back({"Jintegrate_Js", j});
    o.push_back({"zero", m->zero()});
    o.push_back({"lb", m->get_lb()});
    o.push_back({"ub", m->get_ub()});
    return o;
  }
  std::string mutate(Rng& r) override {
    if (r.chance(0.5)) { m->set_lb(-rpos(r, nx)); m->set_ub(rpos(r, nx)); return "state bounds"; }
    if (nd) { static_cast<cr::StateNumDiff*>(m.get())->set_disturbance(r.coarse(0.5, 2) * 1e-6); return "disturbance"; }
    return "";
  }
};

#ifdef SIM_CAST
// a whole problem of castable nodes
struct ProblemUnit : Unit {
  std::shared_ptr<cr::ShootingProblem> m;
  std::vector<Eigen::Index> nus;
  explicit ProblemUnit(Rng& r) {
    const int fam = r.range(0, 1), nq = r.range(1, 2);
    nx = fam ? 3 : 2 * nq;
    auto st = std::make_shared<cr::StateVector>((size_t)nx);
    auto node = [&]() -> ActionPtr {
      Eigen::Index k = r.range(1, fam ? 2 : nq);
      if (fam && r.chance(0.5)) {
        auto a = std::make_shared<cr::ActionModelUnicycle>();
        if (r.chance(0.4)) return std::make_shared<cr::ActionModelNumDiff>(a, r.chance(0.5));
        return a;
      }
      if (!fam && r.chance(0.7)) {
        std::shared_ptr<cr::DifferentialActionModelAbstract> d = make_simdam(r, st, (size_t)k, r.chance(0.6));
        std::shared_ptr<cr::ControlParametrizationModelAbstract> c;
        switch (r.below(3)) {
          case 0: c = std::make_shared<cr::ControlParametrizationModelPolyZero>((size_t)k); break;
          case 1: c = std::make_shared<cr::ControlParametrizationModelPolyOne>((size_t)k); break;
          default: c = std::make_shared<cr::ControlParametrizationModelPolyTwoRK>((size_t)k, cr::RKType::three);
        }
        if (r.chance(0.5)) return std::make_shared<cr::IntegratedActionModelEuler>(d, c, 0.125, r.chance(0.5));
        return std::make_shared<cr::IntegratedActionModelRK>(d, c, r.chance(0.5) ? cr::RKType::three : cr::RKType::four, 0.125, r.chance(0.5));
      }
      LQM p = lqm(r, nx, nx, k, r.range(0, 2), r.range(0, 2));
      auto a = std::make_shared<cr::ActionModelLQR>(p.A, p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h);
      if (r.chance(0.3)) { a->set_u_lb(-rpos(r, k)); a->set_u_ub(rpos(r, k)); }
      return a;
    };
    std::vector<ActionPtr> run;
    int T = r.range(1, 4);
    for (int i = 0; i < T; i++) run.push_back(node());
    auto term = node();
    m = std::make_shared<cr::ShootingProblem>(rv(r, nx), run, term);
    for (auto& a : run) nus.push_back((Eigen::Index)a->get_nu());
    for (auto k : nus) nu += k;
  }
  std::string name() override { return strf("problem of %zu nodes", m->get_T()); }
  Outs report() override {
    Outs o{{"T", one((double)m->get_T())}, {"x0", m->get_x0()}, {"nx", one((double)m->get_nx())}, {"ndx", one((double)m->get_ndx())}, {"nthreads", one((double)m->get_nthreads())}};
    for (auto& a : m->get_runningModels()) add(o, action_report(a.get()));
    add(o, action_report(m->get_terminalModel().get()));
    return o;
  }
  RECAST(ProblemUnit, away_value)
  struct D { double cost = 0; };
  std::shared_ptr<void> make() override { return std::make_shared<D>(); }
  bool has_term() override { return false; }
  std::pair<std::vector<VectorXd>, std::vector<VectorXd>> traj(const Point& p) {
    std::pair<std::vector<VectorXd>, std::vector<VectorXd>> t;
    Rng r(p.seed);
    for (size_t i = 0; i <= nus.size(); i++) t.first.push_back(rv(r, nx) + 0.01 * p.x);
    for (auto k : nus) t.second.push_back(rv(r, k) + 0.01 * p.u.head(k));
    return t;
  }
  void calc(void* v, const Point& p, bool) override { auto t = traj(p); static_cast<D*>(v)->cost = m->calc(t.first, t.second); }
  void diff(void* v, const Point& p, bool) override { auto t = traj(p); static_cast<D*>(v)->cost = m->calcDiff(t.first, t.second); }
  Outs outs(void* v, bool, bool di) override {
    Outs o{{"cost", one(static_cast<D*>(v)->cost)}};
    auto node = [&](cr::ActionDataAbstract& d, bool t) {
      add(o, {{"node cost", one(d.cost)}, {"g", d.g}, {"h", d.h}});
      if (!t) o.push_back({"xnext", d.xnext});
      if (di) {
        add(o, {{"Lx", d.Lx}, {"Lxx", d.Lxx}, {"Gx", d.Gx}, {"Hx", d.Hx}});
        if (!t) add(o, {{"Fx", d.Fx}, {"Fu", d.Fu}, {"Lu", d.Lu}, {"Lxu", d.Lxu}, {"Luu", d.Luu}, {"Gu", d.Gu}, {"Hu", d.Hu}});
      }
    };
    for (auto& d : m->get_runningDatas()) node(*d, false);
    node(*m->get_terminalData(), true);
    return o;
  }
  std::string mutate(Rng& r) override {
    if (r.chance(0.2)) { m->set_x0(rv(r, nx)); return "initial state"; }
    size_t i = (size_t)r.below(m->get_T() + 1);
    // a constraint's status changes the size of the datas
    ActionPtr a = i < m->get_T() ? m->get_runningModels()[i] : m->get_terminalModel();
    for (int k = 0; k < 4; k++) {
      Rng q = r.fork((uint64_t)k);
      if (auto im = dynamic_cast<cr::IntegratedActionModelAbstract*>(a.get())) {
        auto sd = dynamic_cast<SimDAM*>(im->get_differential().get());
        if (sd && sd->constraints) return mutate_sum(q, sd->costs.get());
      }
      std::string s = mutate_action(q, a.get());
      if (!s.empty()) return s;
    }
    return "";
  }
};
#endif
}  // namespace

#ifdef SIM_CAST
std::unique_ptr<Unit> make_problem_unit(Rng& r) { return std::unique_ptr<Unit>(new ProblemUnit(r)); }
#endif
std::string differ(const Outs& a, const Outs& b) {
  if (a.size() != b.size()) return "different outputs";
  for (size_t k = 0; k < a.size(); k++) {
    const MatrixXd &x = a[k].second, &y = b[k].second;
    if (x.rows() != y.rows() || x.cols() != y.cols()) return strf("%s is %dx%d instead of %dx%d", a[k].first, (int)x.rows(), (int)x.cols(), (int)y.rows(), (int)y.cols());
    for (Eigen::Index j = 0; j < x.cols(); j++)
      for (Eigen::Index i = 0; i < x.rows(); i++) {
        double p = x(i, j), q = y(i, j);
        if (memcmp(&p, &q, 8) && !(std::isnan(p) && std::isnan(q))) return strf("%s(%d,%d) is %.17g instead of %.17g", a[k].first, (int)i, (int)j, p, q);
      }
  }
  return "";
}
Point gen_point(Rng& r, const Unit& m, bool wild) {
  Point p;
  if (m.so2) {
    double t = r.uni(-2, 2);
    p.x = VectorXd(3);
    p.x << std::cos(t), std::sin(t), r.coarse(-1, 1);
  } else p.x = rv(r, m.nx);
  p.u = rv(r, m.nu);
  p.t = r.coarse(0, 1);
  p.seed = r.u64();
  if (wild) {
    double bad[] = {NAN, HUGE_VAL, -HUGE_VAL, 1e300, -1e200, 0.};
    int n = r.range(1, 2);
    for (int i = 0; i < n; i++) {
      double v = bad[r.below(6)];
      if (r.chance(0.5) && p.x.size()) p.x[(Eigen::Index)r.below((uint64_t)p.x.size())] = v;
      else if (p.u.size()) p.u[(Eigen::Index)r.below((uint64_t)p.u.size())] = v;
    }
  }
  return p;
}
std::unique_ptr<Unit> make_unit(Rng& r, bool det) {
  rt::NoLib nl;
  int k = r.range(0, 25);
  if (k >= 20) {
    if (k == 20) return std::unique_ptr<Unit>(new SquashUnit(r));
    if (k <= 22) return std::unique_ptr<Unit>(new StateUnit(r));
    const char* n = "";
    ActionPtr a = action_variant(r, det, &n);
    return std::unique_ptr<Unit>(new ActionUnit(a, n));
  }
  if (k <= 7) {
    ProblemSpec p;
    p.so2 = r.chance(0.08);
    p.nx = p.so2 ? 3 : (r.chance(0.6) ? 2 * r.range(1, 2) : r.range(1, 4));
    p.ndx = p.so2 ? 2 : p.nx;
    GenOpts go;
    go.cons = r.chance(0.6);
    go.bounds = r.chance(0.2);
    return std::unique_ptr<Unit>(new ActionUnit(gen_node(r, p, go, false)));
  }
  if (k <= 10) return std::unique_ptr<Unit>(new DiffUnit(r, r.range(0, 1), det));
  if (k <= 11) return std::unique_ptr<Unit>(new SumUnit(r));
  if (k <= 12) return std::unique_ptr<Unit>(new CostUnit(r));
  if (k <= 13) return std::unique_ptr<Unit>(new ManagerUnit(r));
  if (k <= 14) return std::unique_ptr<Unit>(new ConstraintUnit(r));
  if (k <= 15) return std::unique_ptr<Unit>(new ResidualUnit(r));
  if (k <= 16) return std::unique_ptr<Unit>(new ActuationUnit(r));
  if (k <= 17) return std::unique_ptr<Unit>(new ControlUnit(r));
  return std::unique_ptr<Unit>(new ActivationUnit(r));
}
}  // namespace sim
