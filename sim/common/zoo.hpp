// The simulated environment of the library: action models of many kinds, a
// fault-injecting wrapper around them, and deterministic problem generators.
#ifndef SIM_ZOO_HPP
#define SIM_ZOO_HPP
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "common/ctx.hpp"
#include "crocoddyl/core/action-base.hpp"
#include "crocoddyl/core/actuation-base.hpp"
#include "crocoddyl/core/constraints/constraint-manager.hpp"
#include "crocoddyl/core/costs/cost-sum.hpp"
#include "crocoddyl/core/diff-action-base.hpp"
#include "crocoddyl/core/integ-action-base.hpp"
#include "crocoddyl/core/optctrl/shooting.hpp"
#include "crocoddyl/core/state-base.hpp"

namespace sim {
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace cr = crocoddyl;
typedef std::shared_ptr<cr::ActionModelAbstract> ActionPtr;
typedef std::shared_ptr<cr::ActionDataAbstract> ADataPtr;
typedef std::shared_ptr<cr::StateAbstract> StatePtr;
typedef std::shared_ptr<cr::ShootingProblem> ProblemPtr;

// ------------------------------------------------------------------ faults
enum FaultKind {
  FK_STD = 0,     // std::runtime_error
  FK_CROCO,       // crocoddyl::Exception
  FK_ABORT,       // not derived from std::exception: must cross the solver
  FK_BADALLOC,
  FK_TORN,        // outputs half overwritten, then std::runtime_error
  FK_NAN_COST, FK_INF_COST, FK_HUGE_COST,
  FK_NAN_X, FK_INF_X, FK_HUGE_X,
  FK_NAN_D, FK_INF_D, FK_HUGE_D,  // derivatives
  FK_INDEF,       // strongly negative curvature in the control
  FK_ZERO_D,      // all derivatives vanish (stationary-looking)
  FK_COUNT
};
const char* fault_name(int k);
enum Site { SITE_CALC = 0, SITE_DIFF = 1, SITE_DATA = 2, SITE_QS = 3, SITE_COUNT = 4 };
// a test model that has no other scalar type
struct NoCast {};
struct Abort { int code; };  // the non-std exception
// counts down at every evaluation of a zoo component; throws when it gets to 0
struct Bomb { long left = 0; int kind = 0; uint64_t fired = 0; };
extern Bomb g_bomb;
void bomb_tick();

struct Fault {
  int site; uint64_t nth; int kind; uint64_t length;  // hits calls nth..nth+length-1
  int node;                                           // -1: any node
  uint64_t seed;
};
struct EvalRec {  // one finished evaluation of a node
  int site, node;
  bool term, value_fault;
  VectorXd x, u;
  double cost;
  VectorXd xnext;
};
struct Pristine {  // derivatives as the model wrote them
  std::weak_ptr<cr::ActionDataAbstract> owner;
  MatrixXd Fx, Fu, Lxx, Lxu, Luu;
  VectorXd Lx, Lu;
};
struct FaultCtl {
  bool on = true;
  // a model is free to write only the entries that can change: those a fault
  // destroyed are put back before the model is asked again
  std::map<const void*, Pristine> pristine;
  void save(const ADataPtr& d);
  void restore(const ADataPtr& d);
  bool recording = false;
  std::vector<EvalRec> rec;
  uint64_t calls[SITE_COUNT] = {0, 0, 0, 0};
  uint64_t fired = 0, fired_throw = 0, fired_diff = 0, fired_calc = 0;
  uint64_t limit = 0;              // evaluation budget, 0 = none
  std::vector<Fault> plan;
  void reset() { for (auto& c : calls) c = 0; fired = fired_throw = fired_diff = fired_calc = 0; plan.clear(); }
  uint64_t evals() const { return calls[0] + calls[1]; }
};

class SimAction : public cr::ActionModelAbstract {
 public:
  typedef cr::ActionModelAbstract Base;
  SimAction(ActionPtr inner, FaultCtl* ctl, int node);
  void calc(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override;
  void calc(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x) override;
  void calcDiff(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override;
  void calcDiff(const ADataPtr& d, const Eigen::Ref<const VectorXd>& x) override;
  ADataPtr createData() override;
  bool checkData(const ADataPtr& d) override;
  void quasiStatic(const ADataPtr& d, Eigen::Ref<VectorXd> u, const Eigen::Ref<const VectorXd>& x, const std::size_t maxiter, const double tol) override;
  std::size_t get_ng() const override { return inner->get_ng(); }
  std::size_t get_nh() const override { return inner->get_nh(); }
  std::size_t get_ng_T() const override { return inner->get_ng_T(); }
  std::size_t get_nh_T() const override { return inner->get_nh_T(); }
  const VectorXd& get_g_lb() const override { return inner->get_g_lb(); }
  const VectorXd& get_g_ub() const override { return inner->get_g_ub(); }
  std::shared_ptr<cr::ActionModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<cr::ActionModelBase> cloneAsFloat() const override { throw NoCast(); }
  void print(std::ostream& os) const override { os << "SimAction"; }
  ActionPtr inner;
  FaultCtl* ctl;
  int node;
 private:
  template <class F> void forward(int site, const ADataPtr& d, const Eigen::Ref<const VectorXd>& x, const VectorXd& u, bool term, F&& other);
  bool hit(int site, const ADataPtr& d, bool terminal);  // true if a value fault fired
};

// ---------------------------------------------------------------- models
enum Kind {
  K_LQR = 0, K_LQRC, K_NL, K_UNI, K_SO2, K_EULER_DLQR, K_RK_DLQR, K_EULER_SIM, K_RK_SIM, K_NUMDIFF, K_UNIT, K_COUNT
};
const char* kind_name(int k);
struct NodeSpec {
  int kind = K_LQR;
  int nx = 2;      // state vector size
  int nu = 1;
  uint64_t seed = 1;
  int bounds = 0;  // 1: finite control bounds, 2: one-sided / mixed
  bool cons = false;
  int order = 2;   // RK order; also control parametrisation for integrators
  int par = 0;     // 0 zero, 1 one, 2 two
  double curv = 0.3;  // non-convexity of K_NL
  uint64_t key() const;
};
struct ProblemSpec {
  int nx = 2, ndx = 2;
  bool so2 = false;
  VectorXd x0;
  std::vector<NodeSpec> running;
  NodeSpec terminal;
  bool share = true;  // nodes with equal spec use one model object
  std::string describe() const;
};
StatePtr make_state(const NodeSpec& s);
ActionPtr make_action(const NodeSpec& s, StatePtr st = nullptr);
// fault wrapper around every node when ctl is given
ProblemPtr make_problem(const ProblemSpec& s, FaultCtl* ctl = nullptr);
std::vector<ActionPtr> make_running(const ProblemSpec& s, FaultCtl* ctl, std::vector<std::pair<uint64_t, ActionPtr>>* pool = nullptr);
ActionPtr make_one(const NodeSpec& s, FaultCtl* ctl, int node);

struct GenOpts {
  bool lqr_only = false, allow_nu0 = true, hetero = true, bounds = false, cons = false, uniform_nu = false, integ = true, numdiff = true, so2 = true, units = false;
  int minT = 1, maxT = 6;
  double curv = 0.5;
};
NodeSpec gen_node(Rng& r, const ProblemSpec& p, const GenOpts& o, bool terminal);
ProblemSpec gen_problem(Ctx& c, Rng& r, const GenOpts& o, const char* tag = "");
VectorXd gen_x(Rng& r, const ProblemSpec& p, double scale = 1.);
VectorXd gen_u(Rng& r, int nu, double scale = 1.);

// everything a node evaluation produces
uint64_t hash_data(const cr::ActionDataAbstract& d);
// first difference between two node datas, "" when bitwise equal.
// which: 1 calc outputs, 2 derivatives, 4 control parts, 8 constraints
std::string diff_data(const cr::ActionDataAbstract& a, const cr::ActionDataAbstract& b, int which);

// --------------------------------------------- custom classes used by makers
struct SimSO2State : public cr::StateAbstract {
  SimSO2State();
  VectorXd zero() const override;
  VectorXd rand() const override;
  void diff(const Eigen::Ref<const VectorXd>& x0, const Eigen::Ref<const VectorXd>& x1, Eigen::Ref<VectorXd> dx) const override;
  void integrate(const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& dx, Eigen::Ref<VectorXd> out) const override;
  void Jdiff(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&, Eigen::Ref<MatrixXd>, Eigen::Ref<MatrixXd>, const cr::Jcomponent) const override;
  void Jintegrate(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&, Eigen::Ref<MatrixXd>, Eigen::Ref<MatrixXd>, const cr::Jcomponent, const cr::AssignmentOp) const override;
  void JintegrateTransport(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&, Eigen::Ref<MatrixXd>, const cr::Jcomponent) const override {}
  std::shared_ptr<cr::StateBase> cloneAsDouble() const override;
  std::shared_ptr<cr::StateBase> cloneAsFloat() const override;
};

// r = x (-) xref
class SimResidualState : public cr::ResidualModelAbstract {
 public:
  SimResidualState(StatePtr s, const VectorXd& ref, std::size_t nu, int dep = 3)
      : cr::ResidualModelAbstract(s, s->get_ndx(), nu, dep & 1, dep & 2, false), xref(ref) {}
  void calc(const std::shared_ptr<cr::ResidualDataAbstract>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>&) override { calc(d, x); }
  void calc(const std::shared_ptr<cr::ResidualDataAbstract>& d, const Eigen::Ref<const VectorXd>& x) override { bomb_tick(); state_->diff(xref, x, d->r); }
  void calcDiff(const std::shared_ptr<cr::ResidualDataAbstract>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>&) override { calcDiff(d, x); }
  void calcDiff(const std::shared_ptr<cr::ResidualDataAbstract>& d, const Eigen::Ref<const VectorXd>& x) override { bomb_tick(); state_->Jdiff(xref, x, d->Rx, d->Rx, cr::second); }
  std::shared_ptr<cr::ResidualModelBase> cloneAsDouble() const override;
  std::shared_ptr<cr::ResidualModelBase> cloneAsFloat() const override;
  VectorXd xref;
};

class SimActuation : public cr::ActuationModelAbstract {
 public:
  SimActuation(StatePtr s, std::size_t nu, uint64_t seed);
  void calc(const std::shared_ptr<cr::ActuationDataAbstract>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override;
  void calcDiff(const std::shared_ptr<cr::ActuationDataAbstract>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override;
  void commands(const std::shared_ptr<cr::ActuationDataAbstract>& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& tau) override;
  std::shared_ptr<cr::ActuationModelBase> cloneAsDouble() const override;
  std::shared_ptr<cr::ActuationModelBase> cloneAsFloat() const override;
  MatrixXd S;
};

// Differential model built like the library's forward-dynamics models:
// actuation, shared joint data, a cost sum and a constraint manager.
class SimDAM : public cr::DifferentialActionModelAbstract {
 public:
  typedef cr::DifferentialActionModelAbstract Base;
  typedef std::shared_ptr<cr::DifferentialActionDataAbstract> DPtr;
  SimDAM(StatePtr s, std::shared_ptr<cr::ActuationModelAbstract> act, std::shared_ptr<cr::CostModelSum> costs, std::shared_ptr<cr::ConstraintModelManager> cons, uint64_t seed);
  void calc(const DPtr& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override;
  void calc(const DPtr& d, const Eigen::Ref<const VectorXd>& x) override;
  void calcDiff(const DPtr& d, const Eigen::Ref<const VectorXd>& x, const Eigen::Ref<const VectorXd>& u) override;
  void calcDiff(const DPtr& d, const Eigen::Ref<const VectorXd>& x) override;
  DPtr createData() override;
  bool checkData(const DPtr& d) override;
  std::size_t get_ng() const override { return constraints ? constraints->get_ng() : 0; }
  std::size_t get_nh() const override { return constraints ? constraints->get_nh() : 0; }
  std::size_t get_ng_T() const override { return constraints ? constraints->get_ng_T() : 0; }
  std::size_t get_nh_T() const override { return constraints ? constraints->get_nh_T() : 0; }
  const VectorXd& get_g_lb() const override { return constraints ? constraints->get_lb() : g_lb_; }
  const VectorXd& get_g_ub() const override { return constraints ? constraints->get_ub() : g_ub_; }
  std::shared_ptr<cr::DifferentialActionModelBase> cloneAsDouble() const override;
  std::shared_ptr<cr::DifferentialActionModelBase> cloneAsFloat() const override;
  void set_nr(std::size_t n) { nr_ = n; }
  std::shared_ptr<cr::ActuationModelAbstract> actuation;
  std::shared_ptr<cr::CostModelSum> costs;
  std::shared_ptr<cr::ConstraintModelManager> constraints;
  VectorXd k, damp;
};
// builders reused by the registry properties
std::shared_ptr<cr::CostModelAbstract> make_cost(Rng& r, StatePtr st, std::shared_ptr<cr::ActuationModelAbstract> act, std::size_t nu, int which);
std::shared_ptr<cr::ConstraintModelAbstract> make_constraint(Rng& r, StatePtr st, std::size_t nu, int which, bool T);
std::shared_ptr<SimDAM> make_simdam(Rng& r, StatePtr st, std::size_t nu, bool cons);
}  // namespace sim
#endif
