// Reference search directions, computed independently of the solvers.
#ifndef SIM_REFDIR_HPP
#define SIM_REFDIR_HPP
#include "common/zoo.hpp"
namespace sim {
typedef long double ld;
typedef Eigen::Matrix<ld, Eigen::Dynamic, Eigen::Dynamic> MatL;
typedef Eigen::Matrix<ld, Eigen::Dynamic, 1> VecL;
struct RefDir {
  bool ok = false;        // well conditioned, non degenerate
  double d0 = 0, d1 = 0;  // sum Qu.k and -sum k.Quu.k
  double gd0 = 0, gd1 = 0;  // gap terms of FDDP
  double scale = 1;
  double slack = 0;       // effect of the box-QP's tolerance (1e-5 on the gradient)
  double noise = 0;       // effect of rounding in the gains
  bool clamped_moving = false;
  std::vector<VecL> k, fs, Vx;
  std::vector<MatL> K, Vxx, Quu;
  std::vector<VecL> Qu;
};
struct RefIn {
  std::vector<VectorXd> xs, us;
  bool feasible = true;
  double preg = 0;
  bool box = false;      // honour control bounds
  bool equality = false; // honour h
};
// `p` holds an evaluation (calc and calcDiff) of exactly xs, us
RefDir ref_direction(const cr::ShootingProblem& p, const RefIn& in);
// stop value of the KKT solver
double ref_kkt_stop(const cr::ShootingProblem& p, const RefIn& in, bool* ok);
// gaps by the states' own diff
std::vector<VectorXd> gaps(const cr::ShootingProblem& p, const std::vector<VectorXd>& xs);
// minimiser of 0.5 x'Hx + q'x on [lb,ub]; false if not unique or degenerate.
// state: 0 free, 1 at lb, 2 at ub
bool ref_boxqp(const MatrixXd& H, const VectorXd& q, const VectorXd& lb, const VectorXd& ub, VectorXd* x, std::vector<int>* act, double* margin);
// whether projected Newton steps with the ten lengths 1..1/512 (the algorithm
// the library documents) don't get from x to the minimiser
bool boxqp_stuck(const MatrixXd& H, const VectorXd& q, const VectorXd& lb, const VectorXd& ub, VectorXd x, const VectorXd& opt);
}  // namespace sim
#endif
