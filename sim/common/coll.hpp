// Random vectors and a shared data collector for single costs and constraints.
#ifndef SIM_COLL_HPP
#define SIM_COLL_HPP
#include "common/zoo.hpp"
#include "crocoddyl/core/data/joint.hpp"
namespace sim {
inline VectorXd rv(Rng& r, Eigen::Index n, double s = 1) {
  VectorXd a(n);
  for (Eigen::Index i = 0; i < n; i++) a[i] = r.coarse(-s, s);
  return a;
}
inline VectorXd rpos(Rng& r, Eigen::Index n) {
  VectorXd a(n);
  for (Eigen::Index i = 0; i < n; i++) a[i] = r.coarse(0.1, 2);
  return a;
}
inline MatrixXd rm(Rng& r, Eigen::Index n, Eigen::Index m) {
  MatrixXd a(n, m);
  for (Eigen::Index j = 0; j < m; j++) for (Eigen::Index i = 0; i < n; i++) a(i, j) = r.coarse(-1, 1);
  return a;
}
// joint data as a forward-dynamics model would provide it for this point
struct Coll : cr::DataCollectorActuationTpl<double>, cr::DataCollectorJointTpl<double> {
  Coll(StatePtr s, std::shared_ptr<cr::ActuationModelAbstract> a)
      : cr::DataCollectorActuationTpl<double>(a->createData()), cr::DataCollectorJointTpl<double>(std::make_shared<cr::JointDataAbstractTpl<double>>(s, a, a->get_nu())) {}
  void fill(uint64_t seed) {
    Rng r(seed);
    joint->tau = rv(r, joint->tau.size());
    joint->a = rv(r, joint->a.size());
    joint->dtau_dx = rm(r, joint->dtau_dx.rows(), joint->dtau_dx.cols());
    joint->dtau_du = rm(r, joint->dtau_du.rows(), joint->dtau_du.cols());
    joint->da_dx = rm(r, joint->da_dx.rows(), joint->da_dx.cols());
    joint->da_du = rm(r, joint->da_du.rows(), joint->da_du.cols());
  }
};
}  // namespace sim
#endif
