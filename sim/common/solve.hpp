// Driving the library's solvers: creation, options, recording, comparison.
#ifndef SIM_SOLVE_HPP
#define SIM_SOLVE_HPP
#include <functional>

#include "common/zoo.hpp"
#include "crocoddyl/core/solver-base.hpp"

namespace sim {
enum SolverKind { S_DDP = 0, S_FDDP, S_BOXDDP, S_BOXFDDP, S_INTRO, S_KKT, S_COUNT };
const char* solver_name(int k);
typedef std::shared_ptr<cr::SolverAbstract> SolverPtr;

struct SolverOpts {
  size_t maxiter = 20;
  bool feasible = false;
  double init_reg = NAN;
  double reg_min = 1e-9, reg_max = 1e9, inc = 10, dec = 10;
  double th_stop = 1e-9, th_acc = 0.1, th_accneg = 2, th_grad = 1e-12, th_inc = 0.01, th_dec = 0.5;
  std::vector<double> alphas;  // empty: leave
  int feasnorm = 0, eq = 0;
  double rho = 0.3, th_feas = 1e-4;
  bool zero_upsilon = true;
  std::string describe() const;
};
struct OptGen { bool wild = false; bool regs = true; int maxiter_lo = 1, maxiter_hi = 25; };
SolverOpts gen_opts(Ctx& c, Rng& r, int kind, const OptGen& g);
void apply_opts(cr::SolverAbstract& s, int kind, const SolverOpts& o);
size_t n_alphas(cr::SolverAbstract& s);

// observes a solver from inside, through its public virtual functions
struct Monitor {
  virtual ~Monitor() {}
  virtual void before_dir(cr::SolverAbstract&, bool /*recalc*/) {}
  virtual void after_dir(cr::SolverAbstract&, bool /*recalc*/) {}
  virtual void dir_failed(cr::SolverAbstract&, bool /*recalc*/) {}
  virtual void before_try(cr::SolverAbstract&, double) {}
  virtual void after_try(cr::SolverAbstract&, double) {}
  virtual void try_failed(cr::SolverAbstract&, double) {}
};
SolverPtr make_solver(int kind, ProblemPtr p, Monitor* m = nullptr);

struct Warm { std::vector<VectorXd> xs, us; bool feasible = false; int kind = 0; };
// 0 empty, 1 random, 2 truthful rollout, 3 near the rollout, 4 mixed empty
Warm gen_warm(Rng& r, const ProblemSpec& s, const std::vector<ActionPtr>& models, const ActionPtr& term, const VectorXd& x0, int kind, double scale = 1.);

struct Report {
  double cost, stop, d0, d1, preg, dreg, step, dV, dVexp, dPhi, dPhiexp, merit, dfeas, ffeas, gfeas, hfeas;
  size_t iter;
  bool feas;
  std::vector<VectorXd> xs, us;
};
Report snap(cr::SolverAbstract& s);
// first difference, "" when bitwise equal. level 0: everything, 1: no merit
// and trial values, 2: also no regularisation and feasibility
std::string diff_report(const Report& a, const Report& b, int level = 0);

enum Outcome { R_FALSE = 0, R_TRUE = 1, R_STD = 2, R_FOREIGN = 3 };
struct SolveOut {
  int outcome = 0;
  std::string what;
  std::vector<Report> iters;
  Report fin;
};
struct Recorder : public cr::CallbackAbstract {
  SolveOut* out;
  std::function<void(cr::SolverAbstract&)> extra;
  explicit Recorder(SolveOut* o) : out(o) {}
  void operator()(cr::SolverAbstract& s) override;
};
// runs solve() under rt::Lib; installs a Recorder (plus `extra`) as callback
SolveOut run_solve(cr::SolverAbstract& s, const Warm& w, const SolverOpts& o, std::function<void(cr::SolverAbstract&)> extra = nullptr);
std::string diff_out(const SolveOut& a, const SolveOut& b, int level = 0);
void log_out(Ctx& c, const SolveOut& o);

// faults for a solve; each one is a plan item
struct FaultGen {
  std::vector<int> kinds;
  int max = 3;
  uint64_t range = 300;   // positions are log-uniform in [1,range]
  double p_sticky = 0.2;
  bool diff_only = false;
};
void gen_faults(Ctx& c, Rng& r, FaultCtl& ctl, const FaultGen& g, int nodes);
extern const std::vector<int> kThrowKinds, kStdThrowKinds, kValueKinds, kAllKinds, kTruthKinds;

// evaluates a problem without faults and independent of its datas' history
struct Fresh {
  ProblemPtr p;
  double cost = 0;
  void eval(const std::vector<VectorXd>& xs, const std::vector<VectorXd>& us, bool diff);
};
// a solver, its problem, options and warm start
struct Setup {
  ProblemSpec spec;
  SolverOpts opts;
  Warm warm;
  int kind = 0;
  FaultCtl ctl;
  ProblemPtr pr;
};
void gen_setup(Ctx& c, Setup& s, bool wild);
// keeps what SolverIntro's null-space methods can't handle out of a node
void intro_node(NodeSpec& n, const VectorXd& x0);
bool all_finite(const std::vector<VectorXd>& v);
}  // namespace sim
#endif
