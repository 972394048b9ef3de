#include "common/zoo.hpp"
#include "common/units.hpp"

#include <cmath>
#include <map>
#include <new>
#include <stdexcept>

#include "crocoddyl/core/actions/diff-lqr.hpp"
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/activations/2norm-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-flat-exp.hpp"
#include "crocoddyl/core/activations/quadratic-flat-log.hpp"
#include "crocoddyl/core/activations/quadratic.hpp"
#include "crocoddyl/core/activations/smooth-1norm.hpp"
#include "crocoddyl/core/activations/smooth-2norm.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/core/actuation/actuation-squashing.hpp"
#include "crocoddyl/core/actuation/squashing/smooth-sat.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/controls/poly-two-rk.hpp"
#include "crocoddyl/core/controls/poly-zero.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/data/joint.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/core/residuals/joint-acceleration.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "crocoddyl/core/utils/exception.hpp"

namespace sim {
const char* fault_name(int k) {
  static const char* n[] = {"throw_std", "throw_croco", "throw_foreign", "throw_badalloc", "torn_write", "nan_cost", "inf_cost", "huge_cost", "nan_x", "inf_x", "huge_x", "nan_deriv", "inf_deriv", "huge_deriv", "indefinite", "zero_deriv"};
  return n[k];
}
const char* kind_name(int k) {
  static const char* n[] = {"LQR", "LQRc", "NL", "Unicycle", "SO2", "Euler(LQR)", "RK(LQR)", "Euler(Sim)", "RK(Sim)", "NumDiff", "Unit"};
  return n[k];
}

static bool plain_data(const cr::ActionModelAbstract& m, const ADataPtr& d) {
  return d && typeid(*d) == typeid(cr::ActionDataAbstract) && (std::size_t)d->Fx.rows() == m.get_state()->get_ndx() && (std::size_t)d->xnext.size() == m.get_state()->get_nx() && (std::size_t)d->Fu.cols() == m.get_nu();
}
// ------------------------------------------------------------ SimAction
bool SimAction::checkData(const ADataPtr& d) {
  if (dynamic_cast<cr::ActionModelNumDiff*>(inner.get())) return std::dynamic_pointer_cast<cr::ActionDataNumDiff>(d) != nullptr;
  return inner->checkData(d);
}
SimAction::SimAction(ActionPtr in, FaultCtl* c, int n)
    : Base(in->get_state(), in->get_nu(), in->get_nr(), in->get_ng(), in->get_nh(), in->get_ng_T(), in->get_nh_T()), inner(in), ctl(c), node(n) {
  u_lb_ = in->get_u_lb();
  u_ub_ = in->get_u_ub();
  has_control_limits_ = in->get_has_control_limits();
}
static double special(int kind, Rng& r) {
  switch (kind) {
    case FK_NAN_COST: case FK_NAN_X: case FK_NAN_D: return std::nan("");
    case FK_INF_COST: case FK_INF_X: case FK_INF_D: return r.chance(0.5) ? HUGE_VAL : -HUGE_VAL;
    default: return (r.chance(0.5) ? 1 : -1) * (r.chance(0.5) ? 1e31 : 1e160);
  }
}
template <class M>
static void poke(M& m, double v, Rng& r) {
  if (m.size() == 0) return;
  if (r.chance(0.3)) m.setConstant(v);
  else m(r.below((uint64_t)m.rows()), r.below((uint64_t)m.cols())) = v;
}
namespace { struct Torn { uint64_t seed; }; }
void FaultCtl::save(const ADataPtr& d) {
  Pristine& p = pristine[d.get()];
  if (p.owner.lock() == d) return;
  p.owner = d;
  p.Fx = d->Fx; p.Fu = d->Fu; p.Lxx = d->Lxx; p.Lxu = d->Lxu; p.Luu = d->Luu; p.Lx = d->Lx; p.Lu = d->Lu;
}
void FaultCtl::restore(const ADataPtr& d) {
  if (pristine.empty()) return;
  auto it = pristine.find(d.get());
  if (it == pristine.end()) return;
  const Pristine& p = it->second;
  if (p.owner.lock() == d) { d->Fx = p.Fx; d->Fu = p.Fu; d->Lxx = p.Lxx; d->Lxu = p.Lxu; d->Luu = p.Luu; d->Lx = p.Lx; d->Lu = p.Lu; }
  pristine.erase(it);
}
bool SimAction::hit(int site, const ADataPtr& d, bool terminal) {
  bool hurt = false;
  if (!ctl) return hurt;
  uint64_t n = ++ctl->calls[site];
  if (site <= SITE_DIFF && ctl->limit && ctl->evals() > ctl->limit) {
    rt::fatal("nonterm", "solver exceeded its evaluation budget of %llu node evaluations", (unsigned long long)ctl->limit);
  }
  if (!ctl->on) return hurt;
  for (auto& f : ctl->plan) {
    if (f.site != site || n < f.nth || n >= f.nth + f.length) continue;
    if (f.node >= 0 && f.node != node) continue;
    Rng r(mix(f.seed, n));
    ctl->fired++;
    if (site == SITE_CALC) ctl->fired_calc++;
    if (site == SITE_DIFF) ctl->fired_diff++;
    if (g_ctx) {
      rt::NoLib nl;
      g_ctx->count((std::string("fault.") + fault_name(f.kind)).c_str());
      g_ctx->mark(mix((uint64_t)f.kind * 8 + site, n));
      g_ctx->trace("    fault %s at %s call %llu node %d%s", fault_name(f.kind), site == SITE_CALC ? "calc" : site == SITE_DIFF ? "calcDiff" : site == SITE_DATA ? "createData" : "quasiStatic", (unsigned long long)n, node, terminal ? " (terminal)" : "");
    }
    switch (f.kind) {
      case FK_STD: ctl->fired_throw++; throw std::runtime_error("simulated model failure");
      case FK_CROCO: ctl->fired_throw++; throw cr::Exception("simulated model failure", "sim", "sim", 1);
      case FK_ABORT: ctl->fired_throw++; throw Abort{42};
      case FK_BADALLOC: ctl->fired_throw++; throw std::bad_alloc();
      case FK_TORN:
        ctl->fired_throw++;
        if (!d) throw std::runtime_error("simulated model failure");
        throw Torn{r.u64()};
      default: break;
    }
    if (!d) continue;
    hurt = true;
    if (f.kind >= FK_NAN_D) ctl->save(d);
    switch (f.kind) {
      case FK_NAN_COST: case FK_INF_COST: case FK_HUGE_COST: d->cost = special(f.kind, r); break;
      case FK_NAN_X: case FK_INF_X: case FK_HUGE_X: poke(d->xnext, special(f.kind, r), r); break;
      case FK_NAN_D: case FK_INF_D: case FK_HUGE_D: {
        double v = special(f.kind, r);
        switch (r.below(7)) {
          case 0: poke(d->Fx, v, r); break;
          case 1: poke(d->Fu, v, r); break;
          case 2: poke(d->Lx, v, r); break;
          case 3: poke(d->Lu, v, r); break;
          case 4: poke(d->Lxx, v, r); break;
          case 5: poke(d->Lxu, v, r); break;
          default: poke(d->Luu, v, r); break;
        }
        break;
      }
      case FK_INDEF: d->Luu.diagonal().array() -= r.chance(0.5) ? 1e3 : 1e12; break;
      case FK_ZERO_D: d->Fx.setZero(); d->Fu.setZero(); d->Lx.setZero(); d->Lu.setZero(); d->Lxx.setZero(); d->Lxu.setZero(); d->Luu.setZero(); break;
      default: break;
    }
  }
  return hurt;
}
// Throwing faults hit after the model has written its results. A torn one
// leaves results of another point behind: what the model had written when it
// was interrupted.
template <class F>
void SimAction::forward(int site, const ADataPtr& d, const Eigen::Ref<const VectorXd>& x, const VectorXd& u, bool term, F&& other) {
  rt::NoLib nl;
  try {
    bool v = hit(site, d, term);
    if (ctl && ctl->recording) ctl->rec.push_back({site, node, term, v, x, u, d->cost, d->xnext});
  } catch (const Torn& t) {
    Rng r(t.seed);
    VectorXd y(x.size()), v((Eigen::Index)get_nu());
    for (auto* q : {&y, &v})
      for (Eigen::Index i = 0; i < q->size(); i++) (*q)[i] = r.chance(0.1) ? std::nan("") : r.uni(-3, 3);
    if (site == SITE_DIFF) {  // only derivatives are half written
      ctl->save(d);
      const double g = r.chance(0.2) ? std::nan("") : r.uni(-5, 5);
      if (r.chance(0.7)) { d->Lx.setConstant(g); d->Lxx.setConstant(-g); }
      if (!term && r.chance(0.7)) { d->Fx.setConstant(g); d->Fu.setConstant(g); d->Lu.setConstant(g); d->Luu.setIdentity(); }
    } else {
      try { other(y, v); } catch (...) {}
    }
    throw std::runtime_error("simulated model failure (torn)");
  }
}
static const VectorXd kNoU(0);
void SimAction::calc(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) {
  inner->calc(d, x, u);
  forward(SITE_CALC, d, x, u, false, [&](const VectorXd& y, const VectorXd& v) { inner->calc(d, y, v); });
}
void SimAction::calc(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x) {
  inner->calc(d, x);
  forward(SITE_CALC, d, x, kNoU, true, [&](const VectorXd& y, const VectorXd&) { inner->calc(d, y); });
}
void SimAction::calcDiff(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) {
  if (ctl) { rt::NoLib nl; ctl->restore(d); }
  inner->calcDiff(d, x, u);
  forward(SITE_DIFF, d, x, u, false, [&](const VectorXd&, const VectorXd&) {});
}
void SimAction::calcDiff(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x) {
  if (ctl) { rt::NoLib nl; ctl->restore(d); }
  inner->calcDiff(d, x);
  forward(SITE_DIFF, d, x, kNoU, true, [&](const VectorXd&, const VectorXd&) {});
}
ADataPtr SimAction::createData() {
  { rt::NoLib nl; hit(SITE_DATA, nullptr, false); }
  return inner->createData();
}
void SimAction::quasiStatic(const ADataPtr& d, Eigen::Ref<VectorXd> u, const Eigen::Ref<const VectorXd>& x, const std::size_t maxiter, const double tol) {
  inner->quasiStatic(d, u, x, maxiter, tol);
  rt::NoLib nl;
  hit(SITE_QS, nullptr, false);
}

Bomb g_bomb;
void bomb_tick() {
  if (g_bomb.left > 0 && --g_bomb.left == 0) {
    g_bomb.fired++;
    switch (g_bomb.kind) {
      case FK_CROCO: throw cr::Exception("simulated failure", "zoo", "bomb", 1);
      case FK_ABORT: throw Abort{7};
      case FK_BADALLOC: throw std::bad_alloc();
      default: throw std::runtime_error("simulated failure");
    }
  }
}
// ------------------------------------------------------------ SO(2) state
SimSO2State::SimSO2State() : cr::StateAbstract(3, 2) { nq_ = 2; nv_ = 1; }
VectorXd SimSO2State::zero() const { VectorXd x(3); x << 1, 0, 0; return x; }
VectorXd SimSO2State::rand() const { return zero(); }
void SimSO2State::diff(const Eigen::Ref<const VectorXd>& a, const Eigen::Ref<const VectorXd>& b, Eigen::Ref<VectorXd> dx) const {
  double s = a[0] * b[1] - a[1] * b[0], c = a[0] * b[0] + a[1] * b[1];
  dx[0] = std::atan2(s, c);
  dx[1] = b[2] - a[2];
}
void SimSO2State::integrate(const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& dx, Eigen::Ref<VectorXd> o) const {
  double c = std::cos(dx[0]), s = std::sin(dx[0]), x0 = x[0], x1 = x[1];
  double w = x[2] + dx[1];
  o[0] = x0 * c - x1 * s;
  o[1] = x0 * s + x1 * c;
  o[2] = w;
}
void SimSO2State::Jdiff(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&, Eigen::Ref<MatrixXd> J1, Eigen::Ref<MatrixXd> J2, const cr::Jcomponent k) const {
  if (k == cr::first || k == cr::both) { J1.setZero(); J1.diagonal().setConstant(-1); }
  if (k == cr::second || k == cr::both) { J2.setZero(); J2.diagonal().setConstant(1); }
}
void SimSO2State::Jintegrate(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&, Eigen::Ref<MatrixXd> J1, Eigen::Ref<MatrixXd> J2, const cr::Jcomponent k, const cr::AssignmentOp op) const {
  double s = op == cr::rmfrom ? -1 : 1;
  if (k == cr::first || k == cr::both) { if (op == cr::setto) J1.setZero(); J1.diagonal().array() += s; }
  if (k == cr::second || k == cr::both) { if (op == cr::setto) J2.setZero(); J2.diagonal().array() += s; }
}

namespace {
#define NO_CLONE_A \
  bool checkData(const ADataPtr& d) override { return plain_data(*this, d); } \
  std::shared_ptr<cr::ActionModelBase> cloneAsDouble() const override { return nullptr; } \
  std::shared_ptr<cr::ActionModelBase> cloneAsFloat() const override { throw NoCast(); }

MatrixXd rmat(Rng& r, int n, int m, double s) {
  MatrixXd a(n, m);
  for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) a(i, j) = r.coarse(-s, s);
  return a;
}
VectorXd rvec(Rng& r, int n, double s) {
  VectorXd a(n);
  for (int i = 0; i < n; i++) a[i] = r.coarse(-s, s);
  return a;
}
struct LQParams { MatrixXd A, B, Q, R, N, G, H; VectorXd f, q, r, g, h; };
LQParams lq(Rng& r, int nx, int nu, int ng, int nh) {
  LQParams p;
  p.A = MatrixXd::Identity(nx, nx) + rmat(r, nx, nx, 0.3);
  p.B = rmat(r, nx, nu, 1.);
  MatrixXd L = rmat(r, nx + nu, nx + nu, 1.);
  MatrixXd W = L.transpose() * L + 0.25 * MatrixXd::Identity(nx + nu, nx + nu);
  p.Q = W.topLeftCorner(nx, nx);
  p.R = W.bottomRightCorner(nu, nu);
  p.N = W.topRightCorner(nx, nu);
  p.G = rmat(r, ng, nx + nu, 1.);
  p.H = rmat(r, nh, nx + nu, 1.);
  p.f = rvec(r, nx, 0.5);
  p.q = rvec(r, nx, 1.);
  p.r = rvec(r, nu, 1.);
  p.g = rvec(r, ng, 1.);
  p.h = rvec(r, nh, 1.);
  return p;
}

// nonlinear, possibly non-convex generic action
class SimNL : public cr::ActionModelAbstract {
 public:
  SimNL(StatePtr s, std::size_t nu, uint64_t seed, double curv) : cr::ActionModelAbstract(s, nu, 0) {
    Rng r(seed);
    int nx = (int)s->get_nx();
    p = lq(r, nx, (int)nu, 0, 0);
    amp = rvec(r, nx, 0.4);
    w = VectorXd(nx);
    for (int i = 0; i < nx; i++) w[i] = r.chance(curv) ? r.coarse(0, 6) : r.coarse(0, 0.5);
    wu = nu ? VectorXd(rvec(r, (int)nu, 0.2)) : VectorXd(0);
    if (r.chance(0.3)) {  // costs see the first state component only
      double a = p.Q(0, 0), b = p.q[0], c = w[0];
      p.Q.setZero(); p.q.setZero(); p.N.setZero(); w.setZero();
      p.Q(0, 0) = a; p.q[0] = b; w[0] = c;
    }
  }
  void calc(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override {
    bomb_tick();
    d->xnext = p.A * x + p.B * u + p.f + VectorXd(amp.array() * x.array().sin());
    d->cost = 0.5 * x.dot(p.Q * x) + 0.5 * u.dot(p.R * u) + x.dot(p.N * u) + p.q.dot(x) + p.r.dot(u) + w.dot(VectorXd(x.array().cos())) + wu.dot(VectorXd(u.array().sin()));
  }
  void calc(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x) override {
    d->xnext = x;
    d->cost = 0.5 * x.dot(p.Q * x) + p.q.dot(x) + w.dot(VectorXd(x.array().cos()));
  }
  void calcDiff(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override {
    d->Fx = p.A; d->Fx.diagonal() += VectorXd(amp.array() * x.array().cos());
    d->Fu = p.B;
    d->Lx = p.Q * x + p.N * u + p.q - VectorXd(w.array() * x.array().sin());
    d->Lu = p.R * u + p.N.transpose() * x + p.r + VectorXd(wu.array() * u.array().cos());
    d->Lxx = p.Q; d->Lxx.diagonal() -= VectorXd(w.array() * x.array().cos());
    d->Luu = p.R; d->Luu.diagonal() -= VectorXd(wu.array() * u.array().sin());
    d->Lxu = p.N;
  }
  void calcDiff(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x) override {
    d->Lx = p.Q * x + p.q - VectorXd(w.array() * x.array().sin());
    d->Lxx = p.Q; d->Lxx.diagonal() -= VectorXd(w.array() * x.array().cos());
  }
  NO_CLONE_A
  LQParams p;
  VectorXd amp, w, wu;
};

class SimPendulum : public cr::ActionModelAbstract {  // on SO(2) x R
 public:
  SimPendulum(StatePtr s, uint64_t seed) : cr::ActionModelAbstract(s, 1, 0) {
    Rng r(seed);
    dt = 0.125; k = r.coarse(0.5, 4); wq = r.coarse(0.25, 2); ww = r.coarse(0.25, 2); wu = r.coarse(0.25, 2); off = r.coarse(-1, 1);
  }
  void calc(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override {
    double wn = x[2] + dt * (u[0] - k * x[1]);
    Eigen::Vector2d dx(dt * wn, wn - x[2]);
    state_->integrate(x, dx, d->xnext);
    d->cost = wq * (1 - (x[0] * std::cos(off) + x[1] * std::sin(off))) + 0.5 * ww * x[2] * x[2] + 0.5 * wu * u[0] * u[0];
  }
  void calc(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x) override {
    d->xnext = x;
    d->cost = wq * (1 - (x[0] * std::cos(off) + x[1] * std::sin(off))) + 0.5 * ww * x[2] * x[2];
  }
  void calcDiff(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override {
    calcDiff(d, x);
    d->Fx << 1 - dt * dt * k * x[0], dt, -dt * k * x[0], 1;
    d->Fu << dt * dt, dt;
    d->Lu[0] = wu * u[0];
    d->Luu(0, 0) = wu;
    d->Lxu.setZero();
  }
  void calcDiff(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x) override {
    double c = std::cos(off), s = std::sin(off);
    d->Lx[0] = wq * (x[1] * c - x[0] * s);
    d->Lx[1] = ww * x[2];
    d->Lxx.setZero();
    d->Lxx(0, 0) = wq * (x[0] * c + x[1] * s);
    d->Lxx(1, 1) = ww;
  }
  NO_CLONE_A
  double dt, k, wq, ww, wu, off;
};
}  // namespace

// ------------------------------------------------------------- actuation
SimActuation::SimActuation(StatePtr s, std::size_t nu, uint64_t seed) : cr::ActuationModelAbstract(s, nu) {
  Rng r(seed);
  S = rmat(r, (int)s->get_nv(), (int)nu, 1.);
  for (Eigen::Index i = 0; i < std::min(S.rows(), S.cols()); i++) S(i, i) += 1.5;
}
void SimActuation::calc(const std::shared_ptr<cr::ActuationDataAbstract>& d, const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>& u) { bomb_tick(); d->tau.noalias() = S * u; }
void SimActuation::calcDiff(const std::shared_ptr<cr::ActuationDataAbstract>& d, const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&) { bomb_tick(); d->dtau_du = S; }
void SimActuation::commands(const std::shared_ptr<cr::ActuationDataAbstract>& d, const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>& tau) { d->u.noalias() = S.transpose() * tau; }

// ---------------------------------------------------------------- SimDAM
namespace {
struct SimCollector : cr::DataCollectorActuationTpl<double>, cr::DataCollectorJointTpl<double> {
  SimCollector(std::shared_ptr<cr::ActuationDataAbstract> a, std::shared_ptr<cr::JointDataAbstractTpl<double>> j) : cr::DataCollectorActuationTpl<double>(a), cr::DataCollectorJointTpl<double>(j) {}
};
struct SimDAMData : public cr::DifferentialActionDataAbstract {
  explicit SimDAMData(SimDAM* m)
      : cr::DifferentialActionDataAbstract(static_cast<cr::DifferentialActionModelAbstract*>(m)),
        coll(m->actuation->createData(), std::make_shared<cr::JointDataAbstractTpl<double>>(m->get_state(), m->actuation, m->get_nu())),
        costs(m->costs->createData(&coll)) {
    coll.joint->dtau_du.diagonal().setOnes();
    costs->shareMemory(this);
    if (m->constraints) {
      constraints = m->constraints->createData(&coll);
      constraints->shareMemory(this);
    }
  }
  SimCollector coll;
  std::shared_ptr<cr::CostDataSum> costs;
  std::shared_ptr<cr::ConstraintDataManager> constraints;
};
}  // namespace
SimDAM::SimDAM(StatePtr s, std::shared_ptr<cr::ActuationModelAbstract> act, std::shared_ptr<cr::CostModelSum> c, std::shared_ptr<cr::ConstraintModelManager> g, uint64_t seed)
    : Base(s, act->get_nu(), c->get_nr(), g ? g->get_ng() : 0, g ? g->get_nh() : 0, g ? g->get_ng_T() : 0, g ? g->get_nh_T() : 0), actuation(act), costs(c), constraints(g) {
  Rng r(seed);
  k = rvec(r, (int)s->get_nv(), 2.);
  damp = rvec(r, (int)s->get_nv(), 0.5);
}
void SimDAM::calc(const DPtr& data, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) {
  SimDAMData* d = static_cast<SimDAMData*>(data.get());
  const Eigen::Index nv = (Eigen::Index)state_->get_nv();
  bomb_tick();
  actuation->calc(d->coll.actuation, x, u);
  d->xout = d->coll.actuation->tau.array() - k.array() * x.head(nv).array().sin() - damp.array() * x.tail(nv).array();
  d->coll.joint->a = d->xout;
  d->coll.joint->tau = u;
  for (Eigen::Index i = 0; i < d->r.size(); i++) d->r[i] = x[i % x.size()] * (double)(i + 1) + 0.5 * d->xout[i % nv];
  costs->calc(d->costs, x, u);
  d->cost = d->costs->cost;
  if (constraints) {
    d->constraints->resize(this, d);
    constraints->calc(d->constraints, x, u);
  }
}
void SimDAM::calc(const DPtr& data, const Eigen::Ref<const VectorXd>& x) {
  SimDAMData* d = static_cast<SimDAMData*>(data.get());
  for (Eigen::Index i = 0; i < d->r.size(); i++) d->r[i] = x[i % x.size()] * (double)(i + 1);
  costs->calc(d->costs, x);
  d->cost = d->costs->cost;
  if (constraints) {
    d->constraints->resize(this, d, false);
    constraints->calc(d->constraints, x);
  }
}
void SimDAM::calcDiff(const DPtr& data, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) {
  SimDAMData* d = static_cast<SimDAMData*>(data.get());
  const Eigen::Index nv = (Eigen::Index)state_->get_nv();
  actuation->calcDiff(d->coll.actuation, x, u);
  d->Fx = d->coll.actuation->dtau_dx;
  d->Fx.leftCols(nv).diagonal().array() -= k.array() * x.head(nv).array().cos();
  d->Fx.rightCols(nv).diagonal() -= damp;
  d->Fu = d->coll.actuation->dtau_du;
  d->coll.joint->da_dx = d->Fx;
  d->coll.joint->da_du = d->Fu;
  costs->calcDiff(d->costs, x, u);
  if (constraints) constraints->calcDiff(d->constraints, x, u);
}
void SimDAM::calcDiff(const DPtr& data, const Eigen::Ref<const VectorXd>& x) {
  SimDAMData* d = static_cast<SimDAMData*>(data.get());
  costs->calcDiff(d->costs, x);
  if (constraints) constraints->calcDiff(d->constraints, x);
}
SimDAM::DPtr SimDAM::createData() { return std::allocate_shared<SimDAMData>(Eigen::aligned_allocator<SimDAMData>(), this); }
bool SimDAM::checkData(const DPtr& d) { return std::dynamic_pointer_cast<SimDAMData>(d) != nullptr; }

static std::shared_ptr<cr::ActivationModelAbstract> make_activation(Rng& r, int nr) {
  switch (r.below(8)) {
    case 0: return std::make_shared<cr::ActivationModelQuad>(nr);
    case 1: { VectorXd w(nr); for (int i = 0; i < nr; i++) w[i] = r.coarse(0.1, 2); return std::make_shared<cr::ActivationModelWeightedQuad>(w); }
    case 2: return std::make_shared<cr::ActivationModelSmooth1Norm>(nr, r.coarse(0.5, 3));
    case 3: return std::make_shared<cr::ActivationModelSmooth2Norm>(nr, r.coarse(0.5, 3));
    case 4: return std::make_shared<cr::ActivationModelQuadFlatExp>(nr, r.coarse(0.5, 3));
    case 5: return std::make_shared<cr::ActivationModelQuadFlatLog>(nr, r.coarse(0.5, 3));
    case 6: return std::make_shared<cr::ActivationModel2NormBarrier>(nr, r.coarse(0.25, 1));
    default: return std::make_shared<cr::ActivationModelQuad>(nr);
  }
}
// a cost and a constraint a user might write on the abstract bases, through
// each of their constructors
class SimCost : public cr::CostModelAbstract {
 public:
  template <class... A>
  SimCost(Rng& r, StatePtr s, A... a) : cr::CostModelAbstract(s, a...), C(rmat(r, (int)activation_->get_nr(), (int)s->get_ndx(), 1.)), D(rmat(r, (int)activation_->get_nr(), (int)nu_, 1.)) {}
  typedef std::shared_ptr<cr::CostDataAbstract> DP;
  void calc(const DP& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override {
    bomb_tick();
    VectorXd dx(state_->get_ndx());
    state_->diff(state_->zero(), x, dx);
    d->residual->r.noalias() = C * dx;
    d->residual->r.noalias() += D * u;
    activation_->calc(d->activation, d->residual->r);
    d->cost = d->activation->a_value;
  }
  void calcDiff(const DP& d, const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&) override {
    bomb_tick();
    activation_->calcDiff(d->activation, d->residual->r);
    MatrixXd A = d->activation->Arr.diagonal().asDiagonal();
    d->Lx.noalias() = C.transpose() * d->activation->Ar;
    d->Lu.noalias() = D.transpose() * d->activation->Ar;
    d->Lxx = C.transpose() * A * C;
    d->Lxu = C.transpose() * A * D;
    d->Luu = D.transpose() * A * D;
  }
  std::shared_ptr<cr::CostModelBase> cloneAsDouble() const override;
  std::shared_ptr<cr::CostModelBase> cloneAsFloat() const override;
  MatrixXd C, D;
};
class SimConstraint : public cr::ConstraintModelAbstract {
 public:
  template <class... A>
  SimConstraint(Rng& r, StatePtr s, A... a) : cr::ConstraintModelAbstract(s, a...), ng_made(ng_), nh_made(nh_), C(rmat(r, (int)(ng_ + nh_), (int)s->get_ndx(), 1.)), D(rmat(r, (int)(ng_ + nh_), (int)nu_, 1.)) {}
  typedef std::shared_ptr<cr::ConstraintDataAbstract> DP;
  void calc(const DP& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override {
    bomb_tick();
    VectorXd dx(state_->get_ndx());
    state_->diff(state_->zero(), x, dx);
    VectorXd v = C * dx + D * u;
    d->g = v.head(d->g.size());
    d->h = v.tail(d->h.size());
  }
  void calcDiff(const DP& d, const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&) override {
    bomb_tick();
    d->Gx = C.topRows(d->Gx.rows()); d->Gu = D.topRows(d->Gu.rows());
    d->Hx = C.bottomRows(d->Hx.rows()); d->Hu = D.bottomRows(d->Hu.rows());
  }
  std::shared_ptr<cr::ConstraintModelBase> cloneAsDouble() const override;
  std::shared_ptr<cr::ConstraintModelBase> cloneAsFloat() const override;
  std::size_t ng_made, nh_made;
  MatrixXd C, D;
};
std::shared_ptr<cr::CostModelAbstract> make_cost(Rng& r, StatePtr st, std::shared_ptr<cr::ActuationModelAbstract> act, std::size_t nu, int which) {
  std::shared_ptr<cr::ResidualModelAbstract> res;
  if (which >= 5) {
    const std::size_t nr = (std::size_t)r.range(1, 3);
    const bool own = nu == st->get_nv() && r.chance(0.6);
    if (which == 5) {
      if (own) return std::make_shared<SimCost>(r, st, nr);
      return std::make_shared<SimCost>(r, st, nr, nu);
    }
    auto a = make_activation(r, (int)nr);
    if (own) return std::make_shared<SimCost>(r, st, a);
    return std::make_shared<SimCost>(r, st, a, nu);
  }
  if (nu == 0) which = 0;
  switch (which % 5) {
    case 1: res = std::make_shared<cr::ResidualModelControl>(st, rvec(r, (int)nu, 1.)); break;
    case 2: res = std::make_shared<cr::ResidualModelJointAcceleration>(st, rvec(r, (int)st->get_nv(), 1.), nu); break;
    case 3: res = std::make_shared<cr::ResidualModelJointEffort>(st, act, rvec(r, (int)act->get_nu(), 1.), nu, true); break;
    case 4: res = std::make_shared<SimResidualState>(st, rvec(r, (int)st->get_nx(), 1.), nu, (int)r.range(1, 2)); break;
    default: res = std::make_shared<SimResidualState>(st, rvec(r, (int)st->get_nx(), 1.), nu); break;
  }
  return std::make_shared<cr::CostModelResidual>(st, make_activation(r, (int)res->get_nr()), res);
}
std::shared_ptr<cr::ConstraintModelAbstract> make_constraint(Rng& r, StatePtr st, std::size_t nu, int which, bool T) {
  std::shared_ptr<cr::ResidualModelAbstract> res;
  if (which >= 4) {
    const std::size_t ng = (std::size_t)r.range(0, 2), nh = (std::size_t)r.range(ng ? 0 : 1, 2);
    std::shared_ptr<cr::ConstraintModelAbstract> c;
    if (nu == st->get_nv() && r.chance(0.6)) c = std::make_shared<SimConstraint>(r, st, ng, nh, T);
    else c = std::make_shared<SimConstraint>(r, st, nu, ng, nh, T);
    if (ng && r.chance(0.5)) c->update_bounds(VectorXd::Constant((Eigen::Index)ng, -1.5), VectorXd::Constant((Eigen::Index)ng, 2.));
    return c;
  }
  if (nu == 0) which = 0;
  switch (which % 4) {
    case 1: res = std::make_shared<cr::ResidualModelControl>(st, rvec(r, (int)nu, 1.)); T = false; break;
    case 2: res = std::make_shared<cr::ResidualModelJointAcceleration>(st, rvec(r, (int)st->get_nv(), 1.), nu); T = false; break;
    case 3: res = std::make_shared<SimResidualState>(st, rvec(r, (int)st->get_nx(), 1.), nu, (int)r.range(1, 2)); break;
    default: res = std::make_shared<SimResidualState>(st, rvec(r, (int)st->get_nx(), 1.), nu); break;
  }
  if (r.chance(0.5)) {
    int n = (int)res->get_nr();
    VectorXd lb(n), ub(n);
    for (int i = 0; i < n; i++) { lb[i] = r.coarse(-3, 0); ub[i] = r.coarse(0, 3); }
    return std::make_shared<cr::ConstraintModelResidual>(st, res, lb, ub, T);
  }
  return std::make_shared<cr::ConstraintModelResidual>(st, res, T);
}
std::shared_ptr<SimDAM> make_simdam(Rng& r, StatePtr st, std::size_t nu, bool cons) {
  std::shared_ptr<cr::ActuationModelAbstract> act = std::make_shared<SimActuation>(st, nu, r.u64());
  if (nu && r.chance(0.3)) {
    VectorXd lb = VectorXd::Constant((Eigen::Index)nu, -4.), ub = VectorXd::Constant((Eigen::Index)nu, 4.);
    act = std::make_shared<cr::ActuationSquashingModel>(act, std::make_shared<cr::SquashingModelSmoothSat>(lb, ub, nu), nu);
  }
  auto costs = std::make_shared<cr::CostModelSum>(st, nu);
  // two base terms make the problem well posed, more at random
  costs->addCost("xreg", std::make_shared<cr::CostModelResidual>(st, std::make_shared<SimResidualState>(st, rvec(r, (int)st->get_nx(), 1.), nu)), r.coarse(0.1, 2));
  if (nu) costs->addCost("ureg", std::make_shared<cr::CostModelResidual>(st, std::make_shared<cr::ResidualModelControl>(st, nu)), r.coarse(0.1, 2));
  int n = r.range(0, 3);
  for (int i = 0; i < n; i++) costs->addCost(strf("%c%d", (char)('a' + r.below(26)), i), make_cost(r, st, act, nu, r.range(0, 6)), r.coarse(0.05, 1), r.chance(0.85));
  std::shared_ptr<cr::ConstraintModelManager> g;
  if (cons) {
    g = std::make_shared<cr::ConstraintModelManager>(st, nu);
    int m = r.range(1, 3);
    for (int i = 0; i < m; i++) g->addConstraint(strf("%c%d", (char)('a' + r.below(26)), i), make_constraint(r, st, nu, r.range(0, 4), r.chance(0.6)), r.chance(0.85));
  }
  return std::make_shared<SimDAM>(st, act, costs, g, r.u64());
}

// ------------------------------------------------------- casts of the above
// The float twin of a test model only carries what it was made of, so that a
// composition with it can go to float and back.
std::shared_ptr<cr::StateBase> SimSO2State::cloneAsDouble() const { return std::make_shared<SimSO2State>(*this); }
std::shared_ptr<cr::ResidualModelBase> SimResidualState::cloneAsDouble() const { return std::make_shared<SimResidualState>(*this); }
std::shared_ptr<cr::ActuationModelBase> SimActuation::cloneAsDouble() const { return std::make_shared<SimActuation>(*this); }
std::shared_ptr<cr::DifferentialActionModelBase> SimDAM::cloneAsDouble() const { return std::make_shared<SimDAM>(*this); }
std::shared_ptr<cr::CostModelBase> SimCost::cloneAsDouble() const { return std::make_shared<SimCost>(*this); }
std::shared_ptr<cr::ConstraintModelBase> SimConstraint::cloneAsDouble() const { return std::make_shared<SimConstraint>(*this); }
#ifndef SIM_CAST
std::shared_ptr<cr::StateBase> SimSO2State::cloneAsFloat() const { throw NoCast(); }
std::shared_ptr<cr::ResidualModelBase> SimResidualState::cloneAsFloat() const { throw NoCast(); }
std::shared_ptr<cr::ActuationModelBase> SimActuation::cloneAsFloat() const { throw NoCast(); }
std::shared_ptr<cr::DifferentialActionModelBase> SimDAM::cloneAsFloat() const { throw NoCast(); }
std::shared_ptr<cr::CostModelBase> SimCost::cloneAsFloat() const { throw NoCast(); }
std::shared_ptr<cr::ConstraintModelBase> SimConstraint::cloneAsFloat() const { throw NoCast(); }
#else
typedef Eigen::Ref<const Eigen::VectorXf> RVf;
typedef Eigen::Ref<Eigen::VectorXf> OVf;
typedef Eigen::Ref<Eigen::MatrixXf> OMf;
namespace {
struct FState : cr::StateAbstractTpl<float> {
  typedef Eigen::VectorXf V;
  FState(const SimSO2State& s) : cr::StateAbstractTpl<float>(s.get_nx(), s.get_ndx()) {
    nq_ = s.get_nq(); nv_ = s.get_nv();
    lb_ = s.get_lb().cast<float>(); ub_ = s.get_ub().cast<float>();
    update_has_limits();
  }
  V zero() const override { V x(3); x << 1, 0, 0; return x; }
  V rand() const override { return zero(); }
  void diff(const RVf&, const RVf&, OVf) const override { throw NoCast(); }
  void integrate(const RVf&, const RVf&, OVf) const override { throw NoCast(); }
  void Jdiff(const RVf&, const RVf&, OMf, OMf, const cr::Jcomponent) const override { throw NoCast(); }
  void Jintegrate(const RVf&, const RVf&, OMf, OMf, const cr::Jcomponent, const cr::AssignmentOp) const override { throw NoCast(); }
  void JintegrateTransport(const RVf&, const RVf&, OMf, const cr::Jcomponent) const override { throw NoCast(); }
  std::shared_ptr<cr::StateBase> cloneAsDouble() const override {
    auto s = std::make_shared<SimSO2State>();
    s->set_lb(lb_.cast<double>()); s->set_ub(ub_.cast<double>());
    return s;
  }
  std::shared_ptr<cr::StateBase> cloneAsFloat() const override { return std::make_shared<FState>(*this); }
};
struct FResidual : cr::ResidualModelAbstractTpl<float> {
  Eigen::VectorXf ref;
  int dep;
  FResidual(const SimResidualState& m) : cr::ResidualModelAbstractTpl<float>(m.get_state()->cast<float>(), m.get_nr(), m.get_nu(), m.get_q_dependent(), m.get_v_dependent(), false), ref(m.xref.cast<float>()), dep((m.get_q_dependent() ? 1 : 0) | (m.get_v_dependent() ? 2 : 0)) {}
  std::shared_ptr<cr::ResidualModelBase> cloneAsDouble() const override { return std::make_shared<SimResidualState>(state_->cast<double>(), ref.cast<double>(), nu_, dep); }
  std::shared_ptr<cr::ResidualModelBase> cloneAsFloat() const override { return std::make_shared<FResidual>(*this); }
};
struct FActuation : cr::ActuationModelAbstractTpl<float> {
  typedef cr::ActuationModelAbstractTpl<float> B;
  typedef std::shared_ptr<cr::ActuationDataAbstractTpl<float>> DP;
  Eigen::MatrixXf S;
  FActuation(const SimActuation& m) : B(m.get_state()->cast<float>(), m.get_nu()), S(m.S.cast<float>()) {}
  void calc(const DP&, const RVf&, const RVf&) override { throw NoCast(); }
  void calcDiff(const DP&, const RVf&, const RVf&) override { throw NoCast(); }
  void commands(const DP&, const RVf&, const RVf&) override { throw NoCast(); }
  std::shared_ptr<cr::ActuationModelBase> cloneAsDouble() const override {
    auto a = std::make_shared<SimActuation>(state_->cast<double>(), nu_, 1);
    a->S = S.cast<double>();
    return a;
  }
  std::shared_ptr<cr::ActuationModelBase> cloneAsFloat() const override { return std::make_shared<FActuation>(*this); }
};
struct FCost : cr::CostModelAbstractTpl<float> {
  typedef std::shared_ptr<cr::CostDataAbstractTpl<float>> DP;
  Eigen::MatrixXf C, D;
  FCost(const SimCost& m) : cr::CostModelAbstractTpl<float>(m.get_state()->cast<float>(), m.get_activation()->cast<float>(), m.get_nu()), C(m.C.cast<float>()), D(m.D.cast<float>()) {}
  void calc(const DP&, const RVf&, const RVf&) override { throw NoCast(); }
  void calcDiff(const DP&, const RVf&, const RVf&) override { throw NoCast(); }
  std::shared_ptr<cr::CostModelBase> cloneAsDouble() const override {
    Rng r(1);
    auto c = std::make_shared<SimCost>(r, state_->cast<double>(), activation_->cast<double>(), nu_);
    c->C = C.cast<double>(); c->D = D.cast<double>();
    return c;
  }
  std::shared_ptr<cr::CostModelBase> cloneAsFloat() const override { return std::make_shared<FCost>(*this); }
};
struct FConstraint : cr::ConstraintModelAbstractTpl<float> {
  typedef std::shared_ptr<cr::ConstraintDataAbstractTpl<float>> DP;
  Eigen::MatrixXf C, D;
  bool eq;
  std::size_t ng_made, nh_made;
  FConstraint(const SimConstraint& m) : cr::ConstraintModelAbstractTpl<float>(m.get_state()->cast<float>(), m.get_nu(), m.ng_made, m.nh_made, m.get_T_constraint()), C(m.C.cast<float>()), D(m.D.cast<float>()), eq(m.get_type() == cr::Equality), ng_made(m.ng_made), nh_made(m.nh_made) {
    if (eq) remove_bounds(); else update_bounds(m.get_lb().cast<float>(), m.get_ub().cast<float>());
  }
  void calc(const DP&, const RVf&, const RVf&) override { throw NoCast(); }
  void calcDiff(const DP&, const RVf&, const RVf&) override { throw NoCast(); }
  std::shared_ptr<cr::ConstraintModelBase> cloneAsDouble() const override {
    Rng r(1);
    auto c = std::make_shared<SimConstraint>(r, state_->cast<double>(), nu_, ng_made, nh_made, T_constraint_);
    if (eq) c->remove_bounds(); else c->update_bounds(lb_.cast<double>(), ub_.cast<double>());
    c->C = C.cast<double>(); c->D = D.cast<double>();
    return c;
  }
  std::shared_ptr<cr::ConstraintModelBase> cloneAsFloat() const override { return std::make_shared<FConstraint>(*this); }
};
struct FDam : cr::DifferentialActionModelAbstractTpl<float> {
  typedef cr::DifferentialActionModelAbstractTpl<float> B;
  typedef std::shared_ptr<cr::DifferentialActionDataAbstractTpl<float>> DP;
  std::shared_ptr<cr::ActuationModelAbstractTpl<float>> act;
  cr::CostModelSumTpl<float> costs;
  std::shared_ptr<cr::ConstraintModelManagerTpl<float>> cons;
  Eigen::VectorXf k, damp;
  FDam(const SimDAM& m) : B(m.get_state()->cast<float>(), m.get_nu(), m.get_nr(), m.get_ng(), m.get_nh(), m.get_ng_T(), m.get_nh_T()), act(m.actuation->cast<float>()), costs(m.costs->cast<float>()), k(m.k.cast<float>()), damp(m.damp.cast<float>()) {
    if (m.constraints) cons = std::make_shared<cr::ConstraintModelManagerTpl<float>>(m.constraints->cast<float>());
    set_u_lb(m.get_u_lb().cast<float>()); set_u_ub(m.get_u_ub().cast<float>());
  }
  void calc(const DP&, const RVf&, const RVf&) override { throw NoCast(); }
  void calcDiff(const DP&, const RVf&, const RVf&) override { throw NoCast(); }
  std::size_t get_ng() const override { return cons ? cons->get_ng() : 0; }
  std::size_t get_nh() const override { return cons ? cons->get_nh() : 0; }
  std::size_t get_ng_T() const override { return cons ? cons->get_ng_T() : 0; }
  std::size_t get_nh_T() const override { return cons ? cons->get_nh_T() : 0; }
  const Eigen::VectorXf& get_g_lb() const override { return cons ? cons->get_lb() : g_lb_; }
  const Eigen::VectorXf& get_g_ub() const override { return cons ? cons->get_ub() : g_ub_; }
  std::shared_ptr<cr::DifferentialActionModelBase> cloneAsDouble() const override {
    auto c = std::make_shared<cr::CostModelSum>(costs.cast<double>());
    std::shared_ptr<cr::ConstraintModelManager> g;
    if (cons) g = std::make_shared<cr::ConstraintModelManager>(cons->cast<double>());
    auto m = std::make_shared<SimDAM>(state_->cast<double>(), act->cast<double>(), c, g, 1);
    m->set_nr(nr_);
    m->k = k.cast<double>(); m->damp = damp.cast<double>();
    m->set_u_lb(u_lb_.cast<double>()); m->set_u_ub(u_ub_.cast<double>());
    return m;
  }
  std::shared_ptr<cr::DifferentialActionModelBase> cloneAsFloat() const override { return std::make_shared<FDam>(*this); }
};
}  // namespace
std::shared_ptr<cr::StateBase> SimSO2State::cloneAsFloat() const { return std::make_shared<FState>(*this); }
std::shared_ptr<cr::ResidualModelBase> SimResidualState::cloneAsFloat() const { return std::make_shared<FResidual>(*this); }
std::shared_ptr<cr::ActuationModelBase> SimActuation::cloneAsFloat() const { return std::make_shared<FActuation>(*this); }
std::shared_ptr<cr::DifferentialActionModelBase> SimDAM::cloneAsFloat() const { return std::make_shared<FDam>(*this); }
std::shared_ptr<cr::CostModelBase> SimCost::cloneAsFloat() const { return std::make_shared<FCost>(*this); }
std::shared_ptr<cr::ConstraintModelBase> SimConstraint::cloneAsFloat() const { return std::make_shared<FConstraint>(*this); }
#endif

// -------------------------------------------------------------- node specs
// A node that evaluates, besides its own dynamics, a library model of any kind
// on a data of its own; the cost carries a trace of everything it computed.
class SimUnitNode : public SimNL {
 public:
  struct Data : public cr::ActionDataAbstract {
    explicit Data(SimUnitNode* m) : cr::ActionDataAbstract(m), unit(m->unit->make()) {}
    std::shared_ptr<void> unit;
    double mark = 0;
  };
  SimUnitNode(StatePtr s, std::size_t nu, uint64_t seed, double curv) : SimNL(s, nu, seed, curv) {
    Rng r(mix(seed, 0x0417));
    unit = make_unit(r, true);
  }
  void calc(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override {
    SimNL::calc(d, x, u);
    d->cost += evaluate(d, x, u, false, false);
  }
  void calc(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x) override {
    SimNL::calc(d, x);
    d->cost += evaluate(d, x, VectorXd(), true, false);
  }
  void calcDiff(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override {
    SimNL::calcDiff(d, x, u);
    d->Lx.array() += evaluate(d, x, u, false, true);
  }
  void calcDiff(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x) override {
    SimNL::calcDiff(d, x);
    d->Lx.array() += evaluate(d, x, VectorXd(), true, true);
  }
  ADataPtr createData() override { return std::allocate_shared<Data>(Eigen::aligned_allocator<Data>(), this); }
  std::unique_ptr<Unit> unit;
 private:
  double evaluate(const ADataPtr& data, const VectorXd& x, const VectorXd& u, bool term, bool diff) {
    // the bounds a manager reports are those of the last node evaluated
    // (finding shared-bounds), so shared managers have no terminal evaluation
    if (term && (!unit->has_term() || unit->manager)) return 0;
    Data* d = static_cast<Data*>(data.get());
    Rng r(mix(hash_bytes(x.data(), (size_t)x.size() * 8), hash_bytes(u.data(), (size_t)u.size() * 8)));
    uint64_t h = 1;
    try {
      Point p = gen_point(r, *unit, false);
      unit->calc(d->unit.get(), p, term);
      if (diff) unit->diff(d->unit.get(), p, term);
      for (auto& o : unit->outs(d->unit.get(), term, diff)) h = mix(h, hash_bytes(o.second.data(), (size_t)o.second.size() * 8));
    } catch (const std::bad_alloc&) {
      throw;
    } catch (const std::exception&) {
    }
    return 1e-9 * (double)(h % 1000);
  }
};
uint64_t NodeSpec::key() const {
  uint64_t h = mix(seed, (uint64_t)kind);
  h = mix(h, (uint64_t)nx * 1000 + (uint64_t)nu);
  h = mix(h, (uint64_t)bounds * 1000 + (uint64_t)cons * 100 + (uint64_t)order * 10 + (uint64_t)par);
  return mix(h, hash_bytes(&curv, 8));
}
StatePtr make_state(const NodeSpec& s) {
  if (s.kind == K_SO2) return std::make_shared<SimSO2State>();
  return std::make_shared<cr::StateVector>(s.nx);
}
static std::shared_ptr<cr::ControlParametrizationModelAbstract> make_par(int par, std::size_t nw) {
  if (par == 1) return std::make_shared<cr::ControlParametrizationModelPolyOne>(nw);
  if (par == 2) return std::make_shared<cr::ControlParametrizationModelPolyTwoRK>(nw, cr::RKType::three);
  return std::make_shared<cr::ControlParametrizationModelPolyZero>(nw);
}
ActionPtr make_action(const NodeSpec& s, StatePtr st) {
  Rng r(mix(s.seed, 0xac7));
  if (!st) st = make_state(s);
  ActionPtr a;
  switch (s.kind) {
    case K_LQR: {
      LQParams p = lq(r, s.nx, s.nu, 0, 0);
      a = std::make_shared<cr::ActionModelLQR>(p.A, p.B, p.Q, p.R, p.N, p.f, p.q, p.r);
      break;
    }
    case K_LQRC: {
      int ng = r.range(0, 2), nh = r.range(0, 2);
      LQParams p = lq(r, s.nx, s.nu, ng, nh);
      a = std::make_shared<cr::ActionModelLQR>(p.A, p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h);
      if (ng) {
        VectorXd lb(ng), ub(ng);
        for (int i = 0; i < ng; i++) { lb[i] = r.chance(0.3) ? -HUGE_VAL : r.coarse(-3, 0); ub[i] = r.chance(0.3) ? HUGE_VAL : r.coarse(0, 3); }
        a->set_g_lb(lb);
        a->set_g_ub(ub);
      }
      break;
    }
    case K_NL: a = std::make_shared<SimNL>(st, s.nu, s.seed, s.curv); break;
    case K_UNIT: a = std::make_shared<SimUnitNode>(st, s.nu, s.seed, s.curv); break;
    case K_UNI: {
      auto u = std::make_shared<cr::ActionModelUnicycle>();
      u->set_cost_weights(Eigen::Vector2d(r.coarse(0.5, 4), r.coarse(0.5, 4)));
      a = u;
      break;
    }
    case K_SO2: a = std::make_shared<SimPendulum>(st, s.seed); break;
    case K_EULER_DLQR: case K_RK_DLQR: {
      int nq = s.nx / 2;
      int nh = s.cons ? r.range(0, 2) : 0, ng = s.cons ? r.range(0, 2) : 0;
      LQParams p = lq(r, 2 * nq, s.nu, ng, nh);
      MatrixXd Aq = rmat(r, nq, nq, 1.), Av = rmat(r, nq, nq, 0.5), B = rmat(r, nq, s.nu, 1.);
      auto dm = std::make_shared<cr::DifferentialActionModelLQR>(Aq, Av, B, p.Q, p.R, p.N, p.G, p.H, rvec(r, nq, 1.), p.q, p.r, p.g, p.h);
      auto par = make_par(s.par, s.nu);
      if (s.kind == K_EULER_DLQR) a = std::make_shared<cr::IntegratedActionModelEuler>(dm, par, 0.125);
      else a = std::make_shared<cr::IntegratedActionModelRK>(dm, par, (cr::RKType)s.order, 0.125);
      break;
    }
    case K_EULER_SIM: case K_RK_SIM: {
      auto dm = make_simdam(r, st, s.nu, s.cons);
      auto par = make_par(s.par, s.nu);
      const bool res = r.chance(0.7);
      const double dt = r.chance(0.8) ? 0.125 : 0.25;
      if (s.kind == K_EULER_SIM) a = std::make_shared<cr::IntegratedActionModelEuler>(dm, par, dt, res);
      else a = std::make_shared<cr::IntegratedActionModelRK>(dm, par, (cr::RKType)s.order, dt, res);
      break;
    }
    default: {
      NodeSpec q = s;
      q.kind = K_NL;
      a = std::make_shared<cr::ActionModelNumDiff>(make_action(q, st));
    }
  }
  std::size_t nu = a->get_nu();
  if (s.bounds && nu) {
    VectorXd lb(nu), ub(nu);
    for (std::size_t i = 0; i < nu; i++) {
      lb[i] = r.coarse(-2, -0.1);
      ub[i] = r.coarse(0.1, 2);
      if (s.bounds == 2) {
        if (r.chance(0.3)) lb[i] = -HUGE_VAL;
        if (r.chance(0.3)) ub[i] = HUGE_VAL;
        if (r.chance(0.1)) { lb[i] = ub[i] = 0.25; }
      }
    }
    a->set_u_lb(lb);
    a->set_u_ub(ub);
  }
  return a;
}
std::string ProblemSpec::describe() const {
  std::string s = strf("nx=%d x0=%s%s nodes:", nx, str(x0).c_str(), share ? " shared-models" : "");
  for (auto& n : running) s += strf(" %s(nu=%d,seed=%llx%s%s)", kind_name(n.kind), n.nu, (unsigned long long)(n.seed & 0xffff), n.bounds ? ",bounds" : "", n.cons ? ",cons" : "");
  s += strf(" terminal: %s", kind_name(terminal.kind));
  return s;
}
ActionPtr make_one(const NodeSpec& s, FaultCtl* ctl, int node) {
  ActionPtr a = make_action(s);
  if (ctl) return std::make_shared<SimAction>(a, ctl, node);
  return a;
}
std::vector<ActionPtr> make_running(const ProblemSpec& s, FaultCtl* ctl, std::vector<std::pair<uint64_t, ActionPtr>>* pool) {
  std::vector<ActionPtr> v;
  std::vector<std::pair<uint64_t, ActionPtr>> local;
  if (!pool) pool = &local;
  int node = 0;
  for (auto& n : s.running) {
    ActionPtr a;
    if (s.share)
      for (auto& e : *pool) if (e.first == n.key()) a = e.second;
    if (!a) {
      a = make_action(n);
      pool->push_back({n.key(), a});
    }
    if (ctl) a = std::make_shared<SimAction>(a, ctl, node);
    v.push_back(a);
    node++;
  }
  return v;
}
ProblemPtr make_problem(const ProblemSpec& s, FaultCtl* ctl) {
  std::vector<ActionPtr> run = make_running(s, ctl);
  ActionPtr t = make_one(s.terminal, ctl, (int)s.running.size());
  return std::make_shared<cr::ShootingProblem>(s.x0, run, t);
}
NodeSpec gen_node(Rng& r, const ProblemSpec& p, const GenOpts& o, bool terminal) {
  NodeSpec n;
  n.nx = p.nx;
  n.seed = r.u64();
  n.curv = r.chance(o.curv) ? r.uni(0, 0.8) : 0;
  std::vector<int> kinds;
  if (p.so2) kinds = {K_SO2};
  else if (o.lqr_only) kinds = {K_LQR};
  else {
    kinds = {K_LQR, K_NL, K_NL};
    if (o.cons) kinds.push_back(K_LQRC);
    if (p.nx == 3 && !o.uniform_nu) kinds.push_back(K_UNI);
    if (o.numdiff) kinds.push_back(K_NUMDIFF);
    if (o.units) for (int i = 0; i < 3; i++) kinds.push_back(K_UNIT);
    if (p.nx % 2 == 0 && o.integ) for (int k : {K_EULER_DLQR, K_RK_DLQR, K_EULER_SIM, K_RK_SIM, K_EULER_SIM}) kinds.push_back(k);
  }
  n.kind = kinds[r.below(kinds.size())];
  if (n.kind == K_LQRC && p.nx % 2) n.kind = K_LQR;
  n.nu = r.range(o.allow_nu0 && r.chance(0.3) ? 0 : 1, 3);
  if (n.kind == K_SO2) n.nu = 1;
  if (n.kind == K_UNI) n.nu = 2;
  if (n.kind == K_EULER_SIM || n.kind == K_RK_SIM || n.kind == K_EULER_DLQR || n.kind == K_RK_DLQR) {
    n.nu = r.range(1, std::max(1, p.nx / 2));
    n.cons = o.cons && r.chance(0.5);
    n.order = r.range(2, 4);
    n.par = r.chance(0.6) ? 0 : r.range(1, 2);
    if (n.kind == K_EULER_SIM || n.kind == K_EULER_DLQR) n.par = 0;
    if (o.uniform_nu) n.par = 0;
  }
  n.bounds = o.bounds ? (int)r.range(0, 2) : 0;
  (void)terminal;
  return n;
}
ProblemSpec gen_problem(Ctx& c, Rng& r, const GenOpts& o, const char* tag) {
  ProblemSpec p;
  long T = c.knob(strf("T%s", tag).c_str(), r.range(o.minT, o.maxT), o.minT);
  p.so2 = o.so2 && !o.lqr_only && r.chance(0.12);
  p.nx = p.so2 ? 3 : r.range(1, 4);
  if (!p.so2 && o.integ && !o.lqr_only && r.chance(0.4)) p.nx = 2 * r.range(1, 2);
  p.ndx = p.so2 ? 2 : p.nx;
  p.x0 = gen_x(r, p);
  p.share = r.chance(0.5);
  Rng rn = r.fork(5);
  NodeSpec first = gen_node(rn, p, o, false);
  bool hetero = o.hetero && rn.chance(0.6);
  std::vector<NodeSpec> pal{first};
  for (long i = 1; i < 3; i++) pal.push_back(gen_node(rn, p, o, false));
  for (long i = 0; i < T; i++) {
    NodeSpec n = first;
    if (hetero) {
      n = pal[rn.below(3)];
      if (rn.chance(0.3)) n.seed = rn.u64();
    }
    if (o.uniform_nu) {
      n.nu = first.nu;
      if (n.kind == K_UNI && first.nu != 2) n.kind = K_NL;
      if ((n.kind == K_EULER_SIM || n.kind == K_RK_SIM || n.kind == K_EULER_DLQR || n.kind == K_RK_DLQR) && n.nu > n.nx / 2) n.kind = K_NL;
    }
    p.running.push_back(n);
  }
  p.terminal = rn.chance(0.3) ? first : gen_node(rn, p, o, true);
  return p;
}
VectorXd gen_x(Rng& r, const ProblemSpec& p, double s) {
  if (p.so2) {
    double t = r.uni(-2, 2) * s;
    VectorXd x(3);
    x << std::cos(t), std::sin(t), r.coarse(-1, 1) * s;
    return x;
  }
  VectorXd x(p.nx);
  for (int i = 0; i < p.nx; i++) x[i] = r.coarse(-1, 1) * s;
  return x;
}
VectorXd gen_u(Rng& r, int nu, double s) {
  VectorXd u(nu);
  for (int i = 0; i < nu; i++) u[i] = r.coarse(-1, 1) * s;
  return u;
}

uint64_t hash_data(const cr::ActionDataAbstract& d) {
  uint64_t h = hash_bytes(&d.cost, 8);
  for (uint64_t v : {hashm(d.xnext), hashm(d.Fx), hashm(d.Fu), hashm(d.Lx), hashm(d.Lu), hashm(d.Lxx), hashm(d.Lxu), hashm(d.Luu), hashm(d.g), hashm(d.Gx), hashm(d.Gu), hashm(d.h), hashm(d.Hx), hashm(d.Hu)}) h = mix(h, v);
  return h;
}
template <class M>
static std::string cmpm(const char* n, const M& a, const M& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return strf("%s has size %dx%d instead of %dx%d", n, (int)a.rows(), (int)a.cols(), (int)b.rows(), (int)b.cols());
  for (Eigen::Index j = 0; j < a.cols(); j++)
    for (Eigen::Index i = 0; i < a.rows(); i++) {
      double x = a(i, j), y = b(i, j);
      if (memcmp(&x, &y, 8) && !(std::isnan(x) && std::isnan(y))) return strf("%s(%d,%d) is %.17g instead of %.17g", n, (int)i, (int)j, x, y);
    }
  return "";
}
std::string diff_data(const cr::ActionDataAbstract& a, const cr::ActionDataAbstract& b, int which) {
  std::string s;
#define CM(f) if (!(s = cmpm(#f, a.f, b.f)).empty()) return s;
  if (which & 1) {
    if (memcmp(&a.cost, &b.cost, 8) && !(std::isnan(a.cost) && std::isnan(b.cost))) return strf("cost is %.17g instead of %.17g", a.cost, b.cost);
    CM(xnext)
    if (which & 8) { CM(g) CM(h) }
  }
  if (which & 2) {
    CM(Lx) CM(Lxx)
    if (which & 4) { CM(Fx) CM(Fu) CM(Lu) CM(Lxu) CM(Luu) }
    if (which & 8) { CM(Gx) CM(Hx) if (which & 4) { CM(Gu) CM(Hu) } }
  }
  return "";
}
}  // namespace sim
