From 4e038ed3b8e83106da833dc4057d82f434238cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:28 +0000
Subject: [PATCH 01/58] fix: size the LQR constraint Jacobians with nx, not
 twice nq

ActionDataLQR took 2 * nq columns of G and H. For an odd state dimension
nq is not half of nx, so data had wrongly sized Jacobians, or read past the
matrices when there were no controls.
---
 include/crocoddyl/core/actions/lqr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 6595974..d159e2a 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -303,16 +303,16 @@ struct ActionDataLQRTpl : public ActionDataAbstractTpl<_Scalar> {
         Q_x_tmp(VectorXs::Zero(
             static_cast<Eigen::Index>(model->get_state()->get_ndx()))) {
     // Setting the linear model and quadratic cost as they are constant
-    const std::size_t nq = model->get_state()->get_nq();
+    const std::size_t nx = model->get_state()->get_nx();
     const std::size_t nu = model->get_nu();
     Fx = model->get_A();
     Fu = model->get_B();
     Lxx = model->get_Q();
     Luu = model->get_R();
     Lxu = model->get_N();
-    Gx = model->get_G().leftCols(2 * nq);
+    Gx = model->get_G().leftCols(nx);
     Gu = model->get_G().rightCols(nu);
-    Hx = model->get_H().leftCols(2 * nq);
+    Hx = model->get_H().leftCols(nx);
     Hu = model->get_H().rightCols(nu);
   }
   virtual ~ActionDataLQRTpl() = default;
-- 
2.43.0


From 1780fe272ac3ba1af3bcd00160637f6ade83616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 02/58] fix: evaluate LQR derivatives from the model, not from
 a model-wide flag

ActionModelLQR and DifferentialActionModelLQR copied their matrices only
into the first data evaluated after set_LQR, tracked by one flag in the
model: other datas kept the old matrices, the flag was written during
evaluation from several threads, and one constructor left it uninitialised.
---
 include/crocoddyl/core/actions/diff-lqr.hpp |  1 -
 include/crocoddyl/core/actions/diff-lqr.hxx | 48 ++++++++-------------
 include/crocoddyl/core/actions/lqr.hpp      |  1 -
 include/crocoddyl/core/actions/lqr.hxx      | 43 +++++++-----------
 4 files changed, 34 insertions(+), 59 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hpp b/include/crocoddyl/core/actions/diff-lqr.hpp
index 0c53759..7e4dd3a 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hpp
+++ b/include/crocoddyl/core/actions/diff-lqr.hpp
@@ -312,7 +312,6 @@ class DifferentialActionModelLQRTpl
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
-  bool updated_lqr_;
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index d99cf5a..dbb7101 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -14,8 +14,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const MatrixXs& Aq, const MatrixXs& Av, const MatrixXs& B,
     const MatrixXs& Q, const MatrixXs& R, const MatrixXs& N)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0),
-      drift_free_(true),
-      updated_lqr_(false) {
+      drift_free_(true) {
   const std::size_t nq = state_->get_nq();
   MatrixXs G = MatrixXs::Zero(ng_, 2 * nq + nu_);
   MatrixXs H = MatrixXs::Zero(nh_, 2 * nq + nu_);
@@ -33,8 +32,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const MatrixXs& Q, const MatrixXs& R, const MatrixXs& N, const VectorXs& f,
     const VectorXs& q, const VectorXs& r)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   const std::size_t nq = state_->get_nq();
   MatrixXs G = MatrixXs::Zero(ng_, 2 * nq + nu_);
   MatrixXs H = MatrixXs::Zero(ng_, 2 * nq + nu_);
@@ -51,8 +49,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const VectorXs& g, const VectorXs& h)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0, G.rows(),
            H.rows(), G.rows(), H.rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(Aq, Av, B, Q, R, N, G, H, f, q, r, g, h);
 }
 
@@ -73,8 +70,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
       r_(VectorXs::Ones(nu)),
       g_(VectorXs::Zero(0)),
       h_(VectorXs::Zero(0)),
-      drift_free_(drift_free),
-      updated_lqr_(false) {}
+      drift_free_(drift_free) {}
 
 template <typename Scalar>
 DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
@@ -82,8 +78,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     : Base(std::make_shared<StateVector>(2 * copy.get_Aq().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(copy.get_Aq(), copy.get_Av(), copy.get_B(), copy.get_Q(),
           copy.get_R(), copy.get_N(), copy.get_G(), copy.get_H(), copy.get_f(),
           copy.get_q(), copy.get_r(), copy.get_g(), copy.get_h());
@@ -177,19 +172,16 @@ void DifferentialActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nq = state_->get_nq();
-  if (!updated_lqr_) {
-    data->Fx.leftCols(nq) = Aq_;
-    data->Fx.rightCols(nq) = Av_;
-    data->Fu = B_;
-    data->Lxx = Q_;
-    data->Luu = R_;
-    data->Lxu = N_;
-    data->Gx = G_.leftCols(2 * nq);
-    data->Gu = G_.rightCols(nu_);
-    data->Hx = H_.leftCols(2 * nq);
-    data->Hu = H_.rightCols(nu_);
-    updated_lqr_ = true;
-  }
+  data->Fx.leftCols(nq) = Aq_;
+  data->Fx.rightCols(nq) = Av_;
+  data->Fu = B_;
+  data->Lxx = Q_;
+  data->Luu = R_;
+  data->Lxu = N_;
+  data->Gx = G_.leftCols(2 * nq);
+  data->Gu = G_.rightCols(nu_);
+  data->Hx = H_.leftCols(2 * nq);
+  data->Hu = H_.rightCols(nu_);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
   data->Lx.noalias() += N_ * u;
@@ -209,12 +201,9 @@ void DifferentialActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nq = state_->get_nq();
-  if (!updated_lqr_) {
-    data->Lxx = Q_;
-    data->Gx = G_.leftCols(2 * nq);
-    data->Hx = H_.leftCols(2 * nq);
-    updated_lqr_ = true;
-  }
+  data->Lxx = Q_;
+  data->Gx = G_.leftCols(2 * nq);
+  data->Hx = H_.leftCols(2 * nq);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
 }
@@ -463,7 +452,6 @@ void DifferentialActionModelLQRTpl<Scalar>::set_LQR(
   r_ = r;
   g_ = g;
   h_ = h;
-  updated_lqr_ = false;
 }
 
 }  // namespace crocoddyl
diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index d159e2a..7cf0d52 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -286,7 +286,6 @@ class ActionModelLQRTpl : public ActionModelAbstractTpl<_Scalar> {
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
-  bool updated_lqr_;
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index 13f5d00..c8bcba7 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -16,8 +16,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const MatrixXs& A,
                                              const MatrixXs& R,
                                              const MatrixXs& N)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0),
-      drift_free_(true),
-      updated_lqr_(false) {
+      drift_free_(true) {
   const std::size_t nx = state_->get_nx();
   MatrixXs G = MatrixXs::Zero(ng_, nx + nu_);
   MatrixXs H = MatrixXs::Zero(nh_, nx + nu_);
@@ -34,8 +33,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(
     const MatrixXs& A, const MatrixXs& B, const MatrixXs& Q, const MatrixXs& R,
     const MatrixXs& N, const VectorXs& f, const VectorXs& q, const VectorXs& r)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   const std::size_t nx = state_->get_nx();
   MatrixXs G = MatrixXs::Zero(ng_, nx + nu_);
   MatrixXs H = MatrixXs::Zero(ng_, nx + nu_);
@@ -51,8 +49,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(
     const VectorXs& q, const VectorXs& r, const VectorXs& g, const VectorXs& h)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0, G.rows(),
            H.rows(), G.rows(), H.rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(A, B, Q, R, N, G, H, f, q, r, g, h);
 }
 
@@ -80,8 +77,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const ActionModelLQRTpl& copy)
     : Base(std::make_shared<StateVector>(copy.get_A().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(copy.get_A(), copy.get_B(), copy.get_Q(), copy.get_R(), copy.get_N(),
           copy.get_G(), copy.get_H(), copy.get_f(), copy.get_q(), copy.get_r(),
           copy.get_g(), copy.get_h());
@@ -170,18 +166,15 @@ void ActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nx = state_->get_nx();
-  if (!updated_lqr_) {
-    data->Fx = A_;
-    data->Fu = B_;
-    data->Lxx = Q_;
-    data->Luu = R_;
-    data->Lxu = N_;
-    data->Gx = G_.leftCols(nx);
-    data->Gu = G_.rightCols(nu_);
-    data->Hx = H_.leftCols(nx);
-    data->Hu = H_.rightCols(nu_);
-    updated_lqr_ = true;
-  }
+  data->Fx = A_;
+  data->Fu = B_;
+  data->Lxx = Q_;
+  data->Luu = R_;
+  data->Lxu = N_;
+  data->Gx = G_.leftCols(nx);
+  data->Gu = G_.rightCols(nu_);
+  data->Hx = H_.leftCols(nx);
+  data->Hu = H_.rightCols(nu_);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
   data->Lx.noalias() += N_ * u;
@@ -201,12 +194,9 @@ void ActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nx = state_->get_nx();
-  if (!updated_lqr_) {
-    data->Lxx = Q_;
-    data->Gx = G_.leftCols(nx);
-    data->Hx = H_.leftCols(nx);
-    updated_lqr_ = true;
-  }
+  data->Lxx = Q_;
+  data->Gx = G_.leftCols(nx);
+  data->Hx = H_.leftCols(nx);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
 }
@@ -435,7 +425,6 @@ void ActionModelLQRTpl<Scalar>::set_LQR(const MatrixXs& A, const MatrixXs& B,
   r_ = r;
   g_ = g;
   h_ = h;
-  updated_lqr_ = false;
 }
 
 }  // namespace crocoddyl
-- 
2.43.0


From 5fad3eb6d1a6c73b5ffc4cdb2ca23c52ae26dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 03/58] fix: ShootingProblem::set_runningModels used the models
 it had just cleared

The loop read the member list after clearing it instead of the argument,
and only the first T entries of the argument were validated. The new
horizon is now built completely before it replaces the old one.
---
 include/crocoddyl/core/optctrl/shooting.hxx | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index bb33d35..8254a46 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -459,7 +459,8 @@ void ShootingProblemTpl<Scalar>::set_x0(const VectorXs& x0_in) {
 template <typename Scalar>
 void ShootingProblemTpl<Scalar>::set_runningModels(
     const std::vector<std::shared_ptr<ActionModelAbstract> >& models) {
-  for (std::size_t i = 0; i < T_; ++i) {
+  const std::size_t T = models.size();
+  for (std::size_t i = 0; i < T; ++i) {
     const std::shared_ptr<ActionModelAbstract>& model = models[i];
     if (model->get_state()->get_nx() != nx_) {
       throw_pretty("Invalid argument: "
@@ -472,15 +473,15 @@ void ShootingProblemTpl<Scalar>::set_runningModels(
                    << " node is not consistent with the other nodes")
     }
   }
-  is_updated_ = true;
-  T_ = models.size();
-  running_models_.clear();
-  running_datas_.clear();
-  for (std::size_t i = 0; i < T_; ++i) {
-    const std::shared_ptr<ActionModelAbstract>& model = running_models_[i];
-    running_models_.push_back(model);
-    running_datas_.push_back(model->createData());
+  std::vector<std::shared_ptr<ActionModelAbstract> > running_models(models);
+  std::vector<std::shared_ptr<ActionDataAbstract> > running_datas(T);
+  for (std::size_t i = 0; i < T; ++i) {
+    running_datas[i] = running_models[i]->createData();
   }
+  is_updated_ = true;
+  T_ = T;
+  running_models_.swap(running_models);
+  running_datas_.swap(running_datas);
 }
 
 template <typename Scalar>
-- 
2.43.0


From 5e35c0297d24274aad5065981eb9931038b7ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 04/58] fix: keep a shooting problem intact when creating a
 node's data fails

circularAppend, updateModel and set_terminalModel changed the horizon before
calling createData(); when that threw, a node was left with the data of
another model.
---
 include/crocoddyl/core/optctrl/shooting.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index 8254a46..c4a1a0d 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -322,13 +322,14 @@ void ShootingProblemTpl<Scalar>::circularAppend(
     throw_pretty("Invalid argument: "
                  << "ndx node is not consistent with the other nodes")
   }
+  std::shared_ptr<ActionDataAbstract> data = model->createData();
   is_updated_ = true;
   for (std::size_t i = 0; i < T_ - 1; ++i) {
     running_models_[i] = running_models_[i + 1];
     running_datas_[i] = running_datas_[i + 1];
   }
   running_models_.back() = model;
-  running_datas_.back() = model->createData();
+  running_datas_.back() = data;
 }
 
 template <typename Scalar>
@@ -380,13 +381,14 @@ void ShootingProblemTpl<Scalar>::updateModel(
     throw_pretty(
         "Invalid argument: " << "ndx is not consistent with the other nodes")
   }
+  std::shared_ptr<ActionDataAbstract> data = model->createData();
   is_updated_ = true;
   if (i == T_) {
     terminal_model_ = model;
-    terminal_data_ = terminal_model_->createData();
+    terminal_data_ = data;
   } else {
     running_models_[i] = model;
-    running_datas_[i] = model->createData();
+    running_datas_[i] = data;
   }
 }
 
@@ -495,9 +497,10 @@ void ShootingProblemTpl<Scalar>::set_terminalModel(
     throw_pretty(
         "Invalid argument: " << "ndx is not consistent with the other nodes")
   }
+  std::shared_ptr<ActionDataAbstract> data = model->createData();
   is_updated_ = true;
   terminal_model_ = model;
-  terminal_data_ = terminal_model_->createData();
+  terminal_data_ = data;
 }
 
 template <typename Scalar>
-- 
2.43.0


From 324472ea50f43381ba4e68e5a5614e98e1778436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 05/58] fix: initialise and validate all members in every
 ShootingProblem constructor

The constructor taking datas left is_updated_ uninitialised and did not
check the terminal node's dimensions; the copy constructor left is_updated_
and nthreads_ uninitialised.
---
 include/crocoddyl/core/optctrl/shooting.hxx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index c4a1a0d..ffbfa5a 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -78,7 +78,8 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       running_datas_(running_datas),
       nx_(running_models[0]->get_state()->get_nx()),
       ndx_(running_models[0]->get_state()->get_ndx()),
-      nthreads_(1) {
+      nthreads_(1),
+      is_updated_(false) {
   if (static_cast<std::size_t>(x0.size()) != nx_) {
     throw_pretty(
         "Invalid argument: " << "x0 has wrong dimension (it should be " +
@@ -110,6 +111,16 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
                    << " node is not consistent with the action model")
     }
   }
+  if (terminal_model_->get_state()->get_nx() != nx_) {
+    throw_pretty(
+        "Invalid argument: "
+        << "nx in terminal node is not consistent with the other nodes")
+  }
+  if (terminal_model_->get_state()->get_ndx() != ndx_) {
+    throw_pretty(
+        "Invalid argument: "
+        << "ndx in terminal node is not consistent with the other nodes")
+  }
   if (!terminal_model->checkData(terminal_data)) {
     throw_pretty("Invalid argument: "
                  << "terminal action data is not consistent with the terminal "
@@ -134,7 +145,9 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       running_models_(problem.get_runningModels()),
       running_datas_(problem.get_runningDatas()),
       nx_(problem.get_nx()),
-      ndx_(problem.get_ndx()) {}
+      ndx_(problem.get_ndx()),
+      nthreads_(problem.nthreads_),
+      is_updated_(false) {}
 
 template <typename Scalar>
 ShootingProblemTpl<Scalar>::~ShootingProblemTpl() {}
-- 
2.43.0


From 3c6d557e0d44cfc3e010481bda6d67792d7779b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:28 +0000
Subject: [PATCH 06/58] fix: integrated models crashed when asked to check
 foreign data

checkData() tested the argument instead of the result of the cast and then
dereferenced a null pointer for data of any other type.
---
 include/crocoddyl/core/integrator/euler.hxx | 2 +-
 include/crocoddyl/core/integrator/rk.hxx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/integrator/euler.hxx b/include/crocoddyl/core/integrator/euler.hxx
index 9c65e4e..fd538f0 100644
--- a/include/crocoddyl/core/integrator/euler.hxx
+++ b/include/crocoddyl/core/integrator/euler.hxx
@@ -177,7 +177,7 @@ template <typename Scalar>
 bool IntegratedActionModelEulerTpl<Scalar>::checkData(
     const std::shared_ptr<ActionDataAbstract>& data) {
   std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
-  if (data != NULL) {
+  if (d != NULL) {
     return differential_->checkData(d->differential);
   } else {
     return false;
diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 3145433..7d054d7 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -357,7 +357,7 @@ template <typename Scalar>
 bool IntegratedActionModelRKTpl<Scalar>::checkData(
     const std::shared_ptr<ActionDataAbstract>& data) {
   std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
-  if (data != NULL) {
+  if (d != NULL) {
     for (std::size_t i = 0; i < ni_; ++i) {
       if (!differential_->checkData(d->differential[i])) {
         return false;
-- 
2.43.0


From ef22e18fb9dff76a679ec2db61cd1c98cfb4402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 07/58] fix: reject Runge-Kutta data of another order in
 checkData

The data of an integrator with fewer stages was read past its end.
---
 include/crocoddyl/core/integrator/rk.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 7d054d7..fd8db9b 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -358,6 +358,9 @@ bool IntegratedActionModelRKTpl<Scalar>::checkData(
     const std::shared_ptr<ActionDataAbstract>& data) {
   std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
   if (d != NULL) {
+    if (d->differential.size() != ni_) {
+      return false;
+    }
     for (std::size_t i = 0; i < ni_; ++i) {
       if (!differential_->checkData(d->differential[i])) {
         return false;
-- 
2.43.0


From 5292b3ffd125887080f7af11cf9910a0e12992eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:18 +0000
Subject: [PATCH 08/58] fix: recompute derivatives whose computation failed
 before continuing

---
 include/crocoddyl/core/solvers/ddp.hpp | 2 ++
 src/core/solvers/ddp.cpp               | 5 ++++-
 src/core/solvers/fddp.cpp              | 3 ++-
 src/core/solvers/intro.cpp             | 3 ++-
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/solvers/ddp.hpp b/include/crocoddyl/core/solvers/ddp.hpp
index 9708cca..dc6b370 100644
--- a/include/crocoddyl/core/solvers/ddp.hpp
+++ b/include/crocoddyl/core/solvers/ddp.hpp
@@ -348,6 +348,8 @@ class SolverDDP : public SolverAbstract {
   double reg_max_;        //!< Maximum allowed regularization value
 
   double cost_try_;  //!< Total cost computed by line-search procedure
+  bool is_diff_computed_ = true;  //!< False if the last update of the
+                                  //!< derivatives failed
   std::vector<Eigen::VectorXd>
       xs_try_;  //!< State trajectory computed by line-search procedure
   std::vector<Eigen::VectorXd>
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index d0327f1..b595fad 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -65,7 +65,8 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
+        // derivatives that could not be computed have to be computed again
+        recalcDiff = !is_diff_computed_;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
@@ -132,7 +133,9 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 void SolverDDP::computeDirection(const bool recalcDiff) {
   START_PROFILER("SolverDDP::computeDirection");
   if (recalcDiff) {
+    is_diff_computed_ = false;
     calcDiff();
+    is_diff_computed_ = true;
   }
   backwardPass();
   STOP_PROFILER("SolverDDP::computeDirection");
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index 6864abf..b86628f 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -47,7 +47,8 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
+        // derivatives that could not be computed have to be computed again
+        recalcDiff = !is_diff_computed_;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index dcb2f20..24a4f68 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -97,7 +97,8 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
+        // derivatives that could not be computed have to be computed again
+        recalcDiff = !is_diff_computed_;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
-- 
2.43.0


From 7a45b6dc2c320ce720e159cd215624e2dbe7d5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:41 +0000
Subject: [PATCH 09/58] fix: regularization at or below zero never reached its
 maximum, so solve never returned

---
 src/core/solvers/ddp.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index b595fad..4093522 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -9,6 +9,8 @@
 
 #include "crocoddyl/core/solvers/ddp.hpp"
 
+#include <limits>
+
 namespace crocoddyl {
 
 SolverDDP::SolverDDP(std::shared_ptr<ShootingProblem> problem)
@@ -399,6 +401,8 @@ void SolverDDP::computeGains(const std::size_t t) {
 }
 
 void SolverDDP::increaseRegularization() {
+  // start from a positive value, otherwise it never increases
+  preg_ = std::max(std::numeric_limits<double>::epsilon(), preg_);
   preg_ *= reg_incfactor_;
   if (preg_ > reg_max_) {
     preg_ = reg_max_;
@@ -515,7 +519,7 @@ SolverDDP::get_K() const {
 const std::vector<Eigen::VectorXd>& SolverDDP::get_k() const { return k_; }
 
 void SolverDDP::set_reg_incfactor(const double regfactor) {
-  if (regfactor <= 1.) {
+  if (!(regfactor > 1.)) {
     throw_pretty(
         "Invalid argument: " << "reg_incfactor value is higher than 1.");
   }
@@ -523,7 +527,7 @@ void SolverDDP::set_reg_incfactor(const double regfactor) {
 }
 
 void SolverDDP::set_reg_decfactor(const double regfactor) {
-  if (regfactor <= 1.) {
+  if (!(regfactor > 1.)) {
     throw_pretty(
         "Invalid argument: " << "reg_decfactor value is higher than 1.");
   }
@@ -531,7 +535,7 @@ void SolverDDP::set_reg_decfactor(const double regfactor) {
 }
 
 void SolverDDP::set_regfactor(const double regfactor) {
-  if (regfactor <= 1.) {
+  if (!(regfactor > 1.)) {
     throw_pretty("Invalid argument: " << "regfactor value is higher than 1.");
   }
   set_reg_incfactor(regfactor);
@@ -539,28 +543,28 @@ void SolverDDP::set_regfactor(const double regfactor) {
 }
 
 void SolverDDP::set_reg_min(const double regmin) {
-  if (0. > regmin) {
+  if (!(regmin >= 0.)) {
     throw_pretty("Invalid argument: " << "regmin value has to be positive.");
   }
   reg_min_ = regmin;
 }
 
 void SolverDDP::set_regmin(const double regmin) {
-  if (0. > regmin) {
+  if (!(regmin >= 0.)) {
     throw_pretty("Invalid argument: " << "regmin value has to be positive.");
   }
   reg_min_ = regmin;
 }
 
 void SolverDDP::set_reg_max(const double regmax) {
-  if (0. > regmax) {
+  if (!(regmax >= 0.)) {
     throw_pretty("Invalid argument: " << "regmax value has to be positive.");
   }
   reg_max_ = regmax;
 }
 
 void SolverDDP::set_regmax(const double regmax) {
-  if (0. > regmax) {
+  if (!(regmax >= 0.)) {
     throw_pretty("Invalid argument: " << "regmax value has to be positive.");
   }
   reg_max_ = regmax;
-- 
2.43.0


From 6076c83998fe3bf3611fbfd68f0c814023b2c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:41 +0000
Subject: [PATCH 10/58] fix: set_alphas read the first element of an empty list

---
 src/core/solvers/box-qp.cpp | 3 +++
 src/core/solvers/ddp.cpp    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 17b4160..cb76d4e 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -239,6 +239,9 @@ void BoxQP::set_reg(const double reg) {
 }
 
 void BoxQP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty()) {
+    throw_pretty("Invalid argument: " << "at least one alpha is needed.");
+  }
   double prev_alpha = alphas[0];
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index 4093522..98b75cc 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -571,6 +571,9 @@ void SolverDDP::set_regmax(const double regmax) {
 }
 
 void SolverDDP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty()) {
+    throw_pretty("Invalid argument: " << "at least one alpha is needed.");
+  }
   double prev_alpha = alphas[0];
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
-- 
2.43.0


From ebc5e6c0ef607ed8e0d3eafd0890f94d1e4ffc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 11/58] fix: solvers left profiler timers running on regular
 returns

---
 src/core/solvers/box-ddp.cpp | 4 +++-
 src/core/solvers/ddp.cpp     | 1 +
 src/core/solvers/fddp.cpp    | 1 +
 src/core/solvers/intro.cpp   | 1 +
 4 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index b25a38d..73d67b8 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -72,6 +72,7 @@ void SolverBoxDDP::computeGains(const std::size_t t) {
         !is_feasible_) {
       // No control limits on this model: Use vanilla DDP
       SolverDDP::computeGains(t);
+      STOP_PROFILER("SolverBoxDDP::computeGains");
       return;
     }
 
@@ -81,7 +82,7 @@ void SolverBoxDDP::computeGains(const std::size_t t) {
     START_PROFILER("SolverBoxDDP::boxQP");
     const BoxQPSolution& boxqp_sol =
         qp_.solve(Quu_[t], Qu_[t], du_lb_[t], du_ub_[t], k_[t]);
-    START_PROFILER("SolverBoxDDP::boxQP");
+    STOP_PROFILER("SolverBoxDDP::boxQP");
 
     // Compute controls
     START_PROFILER("SolverBoxDDP::Quu_invproj");
@@ -166,6 +167,7 @@ void SolverBoxDDP::forwardPass(double steplength) {
     STOP_PROFILER("SolverBoxDDP::forwardPass");
     throw_pretty("forward_error");
   }
+  STOP_PROFILER("SolverBoxDDP::forwardPass");
 }
 
 const std::vector<Eigen::MatrixXd>& SolverBoxDDP::get_Quu_inv() const {
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index 98b75cc..c478784 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -71,6 +71,7 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         recalcDiff = !is_diff_computed_;
         increaseRegularization();
         if (preg_ == reg_max_) {
+          STOP_PROFILER("SolverDDP::solve");
           return false;
         } else {
           continue;
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index b86628f..c82ebd7 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -51,6 +51,7 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         recalcDiff = !is_diff_computed_;
         increaseRegularization();
         if (preg_ == reg_max_) {
+          STOP_PROFILER("SolverFDDP::solve");
           return false;
         } else {
           continue;
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index 24a4f68..d541426 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -101,6 +101,7 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
         recalcDiff = !is_diff_computed_;
         increaseRegularization();
         if (preg_ == reg_max_) {
+          STOP_PROFILER("SolverIntro::solve");
           return false;
         } else {
           continue;
-- 
2.43.0


From efe57497e29ffa846a05ca47dafd80f1bb8a1ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 12/58] fix: solvers accepted steps and gains with NaN
 coefficients dropped by the infinity norm

---
 include/crocoddyl/core/solver-base.hpp | 11 +++++++++++
 src/core/solvers/box-ddp.cpp           |  2 +-
 src/core/solvers/box-fddp.cpp          |  4 ++--
 src/core/solvers/ddp.cpp               |  4 ++--
 src/core/solvers/fddp.cpp              |  4 ++--
 5 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/crocoddyl/core/solver-base.hpp b/include/crocoddyl/core/solver-base.hpp
index a04405e..4697000 100644
--- a/include/crocoddyl/core/solver-base.hpp
+++ b/include/crocoddyl/core/solver-base.hpp
@@ -501,6 +501,17 @@ class CallbackAbstract {
 
 bool raiseIfNaN(const double value);
 
+/**
+ * @brief Check if any coefficient is NaN, infinite or too large
+ *
+ * Note that the infinity norm alone may drop NaN coefficients.
+ */
+template <typename Derived>
+bool raiseIfNaN(const Eigen::MatrixBase<Derived>& values) {
+  return values.hasNaN() ||
+         raiseIfNaN(values.template lpNorm<Eigen::Infinity>());
+}
+
 }  // namespace crocoddyl
 
 #endif  // CROCODDYL_CORE_SOLVER_BASE_HPP_
diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index 73d67b8..4af8b62 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -146,7 +146,7 @@ void SolverBoxDDP::forwardPass(double steplength) {
       STOP_PROFILER("SolverBoxDDP::forwardPass");
       throw_pretty("forward_error");
     }
-    if (raiseIfNaN(xnext_.lpNorm<Eigen::Infinity>())) {
+    if (raiseIfNaN(xnext_)) {
       STOP_PROFILER("SolverBoxDDP::forwardPass");
       throw_pretty("forward_error");
     }
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index 06f7dcf..8d445e0 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -135,7 +135,7 @@ void SolverBoxFDDP::forwardPass(const double steplength) {
       if (raiseIfNaN(cost_try_)) {
         throw_pretty("forward_error");
       }
-      if (raiseIfNaN(xnext_.lpNorm<Eigen::Infinity>())) {
+      if (raiseIfNaN(xnext_)) {
         throw_pretty("forward_error");
       }
     }
@@ -173,7 +173,7 @@ void SolverBoxFDDP::forwardPass(const double steplength) {
       if (raiseIfNaN(cost_try_)) {
         throw_pretty("forward_error");
       }
-      if (raiseIfNaN(xnext_.lpNorm<Eigen::Infinity>())) {
+      if (raiseIfNaN(xnext_)) {
         throw_pretty("forward_error");
       }
     }
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index c478784..e803053 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -246,10 +246,10 @@ void SolverDDP::backwardPass() {
     // Compute the linear-quadratic approximation of the Value function
     computeValueFunction(t, m);
 
-    if (raiseIfNaN(Vx_[t].lpNorm<Eigen::Infinity>())) {
+    if (raiseIfNaN(Vx_[t])) {
       throw_pretty("backward_error");
     }
-    if (raiseIfNaN(Vxx_[t].lpNorm<Eigen::Infinity>())) {
+    if (raiseIfNaN(Vxx_[t])) {
       throw_pretty("backward_error");
     }
   }
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index c82ebd7..a79a8b2 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -208,7 +208,7 @@ void SolverFDDP::forwardPass(const double steplength) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
       }
-      if (raiseIfNaN(xnext_.lpNorm<Eigen::Infinity>())) {
+      if (raiseIfNaN(xnext_)) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
       }
@@ -245,7 +245,7 @@ void SolverFDDP::forwardPass(const double steplength) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
       }
-      if (raiseIfNaN(xnext_.lpNorm<Eigen::Infinity>())) {
+      if (raiseIfNaN(xnext_)) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
       }
-- 
2.43.0


From 45123affc08c331f39c524f597ce0038b23a992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 13/58] fix: SolverKKT retried a failed direction forever and
 accepted non-finite steps

---
 src/core/solvers/kkt.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index d922f4b..009f621 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -40,18 +40,11 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
   setCandidate(init_xs, init_us, is_feasible);
   bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
-    while (true) {
-      try {
-        computeDirection(recalc);
-      } catch (std::exception& e) {
-        recalc = false;
-        if (preg_ == reg_max_) {
-          return false;
-        } else {
-          continue;
-        }
-      }
-      break;
+    try {
+      computeDirection(recalc);
+    } catch (std::exception& e) {
+      // there is no regularization that could be increased
+      return false;
     }
 
     expectedImprovement();
@@ -132,6 +125,9 @@ double SolverKKT::tryStep(const double steplength) {
   const std::shared_ptr<ActionModelAbstract> m = problem_->get_terminalModel();
   m->get_state()->integrate(xs_[T], steplength * dxs_[T], xs_try_[T]);
   cost_try_ = problem_->calc(xs_try_, us_try_);
+  if (raiseIfNaN(cost_try_)) {
+    throw_pretty("forward_error");
+  }
   return cost_ - cost_try_;
 }
 
@@ -247,6 +243,9 @@ double SolverKKT::calcDiff() {
 
 void SolverKKT::computePrimalDual() {
   primaldual_ = kkt_.lu().solve(-kktref_);
+  if (!primaldual_.allFinite()) {
+    throw_pretty("backward_error");
+  }
   primal_ = primaldual_.segment(0, ndx_ + nu_);
   dual_ = primaldual_.segment(ndx_ + nu_, ndx_);
 }
-- 
2.43.0


From 28027df0b55c2175818612f3c1581508c6e873b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 14/58] fix: an invalid control warm start left a half-replaced
 guess

---
 src/core/solver-base.cpp | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 2bdb394..bef9f90 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -216,13 +216,8 @@ void SolverAbstract::setCandidate(const std::vector<Eigen::VectorXd>& xs_warm,
 
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-  if (xs_warm.size() == 0) {
-    for (std::size_t t = 0; t < T; ++t) {
-      const std::shared_ptr<ActionModelAbstract>& model = models[t];
-      xs_[t] = model->get_state()->zero();
-    }
-    xs_.back() = problem_->get_terminalModel()->get_state()->zero();
-  } else {
+  // The whole warm start is checked before changing the current guess
+  if (xs_warm.size() != 0) {
     if (xs_warm.size() != T + 1) {
       throw_pretty("Warm start state vector has wrong dimension, got "
                    << xs_warm.size() << " expecting " << (T + 1));
@@ -249,16 +244,8 @@ void SolverAbstract::setCandidate(const std::vector<Eigen::VectorXd>& xs_warm,
                           std::to_string(nx) + "). ActionModel: "
                    << *problem_->get_terminalModel());
     }
-    std::copy(xs_warm.begin(), xs_warm.end(), xs_.begin());
   }
-
-  if (us_warm.size() == 0) {
-    for (std::size_t t = 0; t < T; ++t) {
-      const std::shared_ptr<ActionModelAbstract>& model = models[t];
-      const std::size_t nu = model->get_nu();
-      us_[t] = Eigen::VectorXd::Zero(nu);
-    }
-  } else {
+  if (us_warm.size() != 0) {
     if (us_warm.size() != T) {
       throw_pretty("Warm start control has wrong dimension, got "
                    << us_warm.size() << " expecting " << T);
@@ -276,6 +263,24 @@ void SolverAbstract::setCandidate(const std::vector<Eigen::VectorXd>& xs_warm,
                      << *model);
       }
     }
+  }
+
+  if (xs_warm.size() == 0) {
+    for (std::size_t t = 0; t < T; ++t) {
+      const std::shared_ptr<ActionModelAbstract>& model = models[t];
+      xs_[t] = model->get_state()->zero();
+    }
+    xs_.back() = problem_->get_terminalModel()->get_state()->zero();
+  } else {
+    std::copy(xs_warm.begin(), xs_warm.end(), xs_.begin());
+  }
+  if (us_warm.size() == 0) {
+    for (std::size_t t = 0; t < T; ++t) {
+      const std::shared_ptr<ActionModelAbstract>& model = models[t];
+      const std::size_t nu = model->get_nu();
+      us_[t] = Eigen::VectorXd::Zero(nu);
+    }
+  } else {
     std::copy(us_warm.begin(), us_warm.end(), us_.begin());
   }
   is_feasible_ = is_feasible;
-- 
2.43.0


From 63c6e30a6700a6f1b2584415807b60a7fee0a69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 15/58] fix: inequality feasibility mixed norms and mismatched
 terminal bounds

---
 src/core/solver-base.cpp | 46 ++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index bef9f90..920eb9e 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -126,6 +126,7 @@ double SolverAbstract::computeDynamicFeasibility() {
 double SolverAbstract::computeInequalityFeasibility() {
   tmp_feas_ = 0.;
   const std::size_t T = problem_->get_T();
+  const std::size_t ng_T = problem_->get_terminalModel()->get_ng_T();
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
@@ -134,40 +135,49 @@ double SolverAbstract::computeInequalityFeasibility() {
   switch (feasnorm_) {
     case LInf:
       for (std::size_t t = 0; t < T; ++t) {
-        if (models[t]->get_ng() > 0) {
+        const std::size_t ng = models[t]->get_ng();
+        if (ng > 0) {
           g_adj_[t] = datas[t]
-                          ->g.cwiseMax(models[t]->get_g_lb())
-                          .cwiseMin(models[t]->get_g_ub());
+                          ->g.head(ng)
+                          .cwiseMax(models[t]->get_g_lb().head(ng))
+                          .cwiseMin(models[t]->get_g_ub().head(ng));
           tmp_feas_ = std::max(
-              tmp_feas_, (datas[t]->g - g_adj_[t]).lpNorm<Eigen::Infinity>());
+              tmp_feas_,
+              (datas[t]->g.head(ng) - g_adj_[t]).lpNorm<Eigen::Infinity>());
         }
       }
-      if (problem_->get_terminalModel()->get_ng_T() > 0) {
+      if (ng_T > 0) {
         g_adj_.back() =
             problem_->get_terminalData()
-                ->g.cwiseMax(problem_->get_terminalModel()->get_g_lb())
-                .cwiseMin(problem_->get_terminalModel()->get_g_ub());
-        tmp_feas_ += (problem_->get_terminalData()->g - g_adj_.back())
-                         .lpNorm<Eigen::Infinity>();
+                ->g.head(ng_T)
+                .cwiseMax(problem_->get_terminalModel()->get_g_lb().head(ng_T))
+                .cwiseMin(problem_->get_terminalModel()->get_g_ub().head(ng_T));
+        tmp_feas_ = std::max(
+            tmp_feas_, (problem_->get_terminalData()->g.head(ng_T) -
+                        g_adj_.back())
+                           .lpNorm<Eigen::Infinity>());
       }
       break;
     case L1:
       for (std::size_t t = 0; t < T; ++t) {
-        if (models[t]->get_ng() > 0) {
+        const std::size_t ng = models[t]->get_ng();
+        if (ng > 0) {
           g_adj_[t] = datas[t]
-                          ->g.cwiseMax(models[t]->get_g_lb())
-                          .cwiseMin(models[t]->get_g_ub());
-          tmp_feas_ =
-              std::max(tmp_feas_, (datas[t]->g - g_adj_[t]).lpNorm<1>());
+                          ->g.head(ng)
+                          .cwiseMax(models[t]->get_g_lb().head(ng))
+                          .cwiseMin(models[t]->get_g_ub().head(ng));
+          tmp_feas_ += (datas[t]->g.head(ng) - g_adj_[t]).lpNorm<1>();
         }
       }
-      if (problem_->get_terminalModel()->get_ng_T() > 0) {
+      if (ng_T > 0) {
         g_adj_.back() =
             problem_->get_terminalData()
-                ->g.cwiseMax(problem_->get_terminalModel()->get_g_lb())
-                .cwiseMin(problem_->get_terminalModel()->get_g_ub());
+                ->g.head(ng_T)
+                .cwiseMax(problem_->get_terminalModel()->get_g_lb().head(ng_T))
+                .cwiseMin(problem_->get_terminalModel()->get_g_ub().head(ng_T));
         tmp_feas_ +=
-            (problem_->get_terminalData()->g - g_adj_.back()).lpNorm<1>();
+            (problem_->get_terminalData()->g.head(ng_T) - g_adj_.back())
+                .lpNorm<1>();
       }
       break;
   }
-- 
2.43.0


From d1c5e829dd7fb9a4ca30fbf013783cecea2d6ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 16/58] fix: line search evaluated running nodes without
 controls as terminal nodes

---
 src/core/solvers/box-ddp.cpp  | 4 +---
 src/core/solvers/box-fddp.cpp | 8 ++------
 src/core/solvers/ddp.cpp      | 4 +---
 src/core/solvers/fddp.cpp     | 8 ++------
 4 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index 4af8b62..6e2aa0e 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -135,10 +135,8 @@ void SolverBoxDDP::forwardPass(double steplength) {
       if (m->get_has_control_limits()) {  // clamp control
         us_try_[t] = us_try_[t].cwiseMax(m->get_u_lb()).cwiseMin(m->get_u_ub());
       }
-      m->calc(d, xs_try_[t], us_try_[t]);
-    } else {
-      m->calc(d, xs_try_[t]);
     }
+    m->calc(d, xs_try_[t], us_try_[t]);
     xnext_ = d->xnext;
     cost_try_ += d->cost;
 
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index 8d445e0..2a19a53 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -125,10 +125,8 @@ void SolverBoxFDDP::forwardPass(const double steplength) {
           us_try_[t] =
               us_try_[t].cwiseMax(m->get_u_lb()).cwiseMin(m->get_u_ub());
         }
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
@@ -163,10 +161,8 @@ void SolverBoxFDDP::forwardPass(const double steplength) {
           us_try_[t] =
               us_try_[t].cwiseMax(m->get_u_lb()).cwiseMin(m->get_u_ub());
         }
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index e803053..6560a8b 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -277,10 +277,8 @@ void SolverDDP::forwardPass(const double steplength) {
       us_try_[t].noalias() = us_[t];
       us_try_[t].noalias() -= k_[t] * steplength;
       us_try_[t].noalias() -= K_[t] * dx_[t];
-      m->calc(d, xs_try_[t], us_try_[t]);
-    } else {
-      m->calc(d, xs_try_[t]);
     }
+    m->calc(d, xs_try_[t], us_try_[t]);
     xs_try_[t + 1] = d->xnext;
     cost_try_ += d->cost;
 
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index a79a8b2..c9284e2 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -197,10 +197,8 @@ void SolverFDDP::forwardPass(const double steplength) {
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
@@ -234,10 +232,8 @@ void SolverFDDP::forwardPass(const double steplength) {
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
-- 
2.43.0


From 2188d754fdca421d883231198ecafb647a652594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 17/58] fix: box solvers assumed equal control dimensions,
 reused old box-QP results and left a terminal gap

---
 src/core/solvers/box-ddp.cpp  | 16 ++++++++++------
 src/core/solvers/box-fddp.cpp |  8 ++++++++
 src/core/solvers/box-qp.cpp   |  5 +++++
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index 6e2aa0e..f0b5b0a 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -76,6 +76,14 @@ void SolverBoxDDP::computeGains(const std::size_t t) {
       return;
     }
 
+    // a new optimization doesn't continue with the gains of a previous one, and
+    // nodes might have different control dimensions
+    if (iter_ == 0) {
+      k_[t].setZero();
+    }
+    if (qp_.get_nx() != nu) {
+      qp_.set_nx(nu);
+    }
     du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
     du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
 
@@ -152,12 +160,8 @@ void SolverBoxDDP::forwardPass(double steplength) {
 
   const std::shared_ptr<ActionModelAbstract>& m = problem_->get_terminalModel();
   const std::shared_ptr<ActionDataAbstract>& d = problem_->get_terminalData();
-  if ((is_feasible_) || (steplength == 1)) {
-    xs_try_.back() = xnext_;
-  } else {
-    m->get_state()->integrate(xnext_, fs_.back() * (steplength - 1),
-                              xs_try_.back());
-  }
+  // the accepted trajectories are declared feasible, so the gaps are closed
+  xs_try_.back() = xnext_;
   m->calc(d, xs_try_.back());
   cost_try_ += d->cost;
 
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index 2a19a53..f1108fd 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -74,6 +74,14 @@ void SolverBoxFDDP::computeGains(const std::size_t t) {
       return;
     }
 
+    // a new optimization doesn't continue with the gains of a previous one, and
+    // nodes might have different control dimensions
+    if (iter_ == 0) {
+      k_[t].setZero();
+    }
+    if (qp_.get_nx() != nu) {
+      qp_.set_nx(nu);
+    }
     du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
     du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
 
diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index cb76d4e..9cb4c3e 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -99,6 +99,11 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
     x_(i) = std::max(std::min(xinit(i), ub(i)), lb(i));
   }
 
+  // Discard the solution of a previous problem
+  solution_.clamped_idx.clear();
+  solution_.free_idx.clear();
+  solution_.Hff_inv.resize(0, 0);
+
   // Start the numerical iterations
   for (std::size_t k = 0; k < maxiter_; ++k) {
     solution_.clamped_idx.clear();
-- 
2.43.0


From 1b6fe2d54128f7fbbee708dde6fa7dbe6c1390e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 18/58] fix: FDDP and Intro computed the stopping criterion
 from a previous direction when no step could be evaluated

---
 src/core/solvers/fddp.cpp  | 3 +++
 src/core/solvers/intro.cpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index c9284e2..c2f3ac7 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -172,6 +172,9 @@ void SolverFDDP::updateExpectedImprovement() {
       dq_ += fs_[t].dot(fTVxx_p_);
     }
   }
+  // needed in case that none of the steps could be evaluated
+  d_[0] = dg_;
+  d_[1] = dq_;
 }
 
 void SolverFDDP::forwardPass(const double steplength) {
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index d541426..2a60b7c 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -78,6 +78,8 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
   xs_try_[0] =
       problem_->get_x0();  // it is needed in case that init_xs[0] is infeasible
   setCandidate(init_xs, init_us, is_feasible);
+  // expectedImprovement() is computed before trying the first step
+  std::copy(xs_.begin() + 1, xs_.end(), xs_try_.begin() + 1);
 
   if (std::isnan(init_reg)) {
     preg_ = reg_min_;
-- 
2.43.0


From f299c17776e877ae72bb3e43a205eefc4cd8bca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 19/58] fix: solvers did not follow changes of the horizon, nor
 changes already seen by another solver

---
 src/core/solver-base.cpp   |  8 +++++++-
 src/core/solvers/ddp.cpp   | 10 +++++++---
 src/core/solvers/fddp.cpp  |  7 ++++---
 src/core/solvers/intro.cpp | 24 +++++++++++++++++++++---
 src/core/solvers/kkt.cpp   |  5 +++++
 5 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 920eb9e..a104c78 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -75,11 +75,17 @@ void SolverAbstract::resizeData() {
   const std::size_t ng_T = problem_->get_terminalModel()->get_ng_T();
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
+  if (us_.size() != T) {
+    xs_.resize(T + 1, problem_->get_terminalModel()->get_state()->zero());
+    us_.resize(T);
+    fs_.resize(T + 1, Eigen::VectorXd::Zero(problem_->get_ndx()));
+    g_adj_.resize(T + 1);
+  }
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::size_t nu = model->get_nu();
     const std::size_t ng = model->get_ng();
-    us_[t].conservativeResize(nu);
+    us_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
     g_adj_[t].conservativeResize(ng);
   }
 
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index 6560a8b..c88a4cb 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -45,9 +45,10 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::size_t maxiter, const bool is_feasible,
                       const double init_reg) {
   START_PROFILER("SolverDDP::solve");
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  // the flag is shared by all the solvers of this problem, then it cannot tell
+  // whether this solver has seen the last update
+  problem_->is_updated();
+  resizeData();
   xs_try_[0] =
       problem_->get_x0();  // it is needed in case that init_xs[0] is infeasible
   setCandidate(init_xs, init_us, is_feasible);
@@ -180,6 +181,9 @@ void SolverDDP::resizeData() {
   SolverAbstract::resizeData();
 
   const std::size_t T = problem_->get_T();
+  if (us_try_.size() != T) {
+    allocateData();
+  }
   const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index c2f3ac7..390aa70 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -25,9 +25,10 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                        const std::size_t maxiter, const bool is_feasible,
                        const double init_reg) {
   START_PROFILER("SolverFDDP::solve");
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  // the flag is shared by all the solvers of this problem, then it cannot tell
+  // whether this solver has seen the last update
+  problem_->is_updated();
+  resizeData();
   xs_try_[0] =
       problem_->get_x0();  // it is needed in case that init_xs[0] is infeasible
   setCandidate(init_xs, init_us, is_feasible);
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index 2a60b7c..2b881e6 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -72,9 +72,10 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
                         const std::size_t maxiter, const bool is_feasible,
                         const double init_reg) {
   START_PROFILER("SolverIntro::solve");
-  if (problem_->is_updated()) {
-    resizeData();
-  }
+  // the flag is shared by all the solvers of this problem, then it cannot tell
+  // whether this solver has seen the last update
+  problem_->is_updated();
+  resizeData();
   xs_try_[0] =
       problem_->get_x0();  // it is needed in case that init_xs[0] is infeasible
   setCandidate(init_xs, init_us, is_feasible);
@@ -205,6 +206,23 @@ void SolverIntro::resizeData() {
 
   const std::size_t T = problem_->get_T();
   const std::size_t ndx = problem_->get_ndx();
+  Hu_rank_.resize(T);
+  KQuu_tmp_.resize(T);
+  YZ_.resize(T);
+  Hy_.resize(T);
+  Qz_.resize(T);
+  Qzz_.resize(T);
+  Qxz_.resize(T);
+  Quz_.resize(T);
+  kz_.resize(T);
+  Kz_.resize(T);
+  ks_.resize(T);
+  Ks_.resize(T);
+  QuuinvHuT_.resize(T);
+  Qzz_llt_.resize(T);
+  Hu_lu_.resize(T);
+  Hu_qr_.resize(T);
+  Hy_lu_.resize(T);
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
   for (std::size_t t = 0; t < T; ++t) {
diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index 009f621..4fdf988 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -37,6 +37,11 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::vector<Eigen::VectorXd>& init_us,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
+  // the flag is shared by all the solvers of this problem, then it cannot tell
+  // whether this solver has seen the last update
+  problem_->is_updated();
+  resizeData();
+  allocateData();
   setCandidate(init_xs, init_us, is_feasible);
   bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
-- 
2.43.0


From 927a417996297b3486b1a0cf3a81e3d2793237ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 20/58] fix: SolverIntro's Schur solver used the equality
 constraints of a rejected step

---
 include/crocoddyl/core/solvers/intro.hpp | 3 +++
 src/core/solvers/intro.cpp               | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/solvers/intro.hpp b/include/crocoddyl/core/solvers/intro.hpp
index 7f446a7..1c7132d 100644
--- a/include/crocoddyl/core/solvers/intro.hpp
+++ b/include/crocoddyl/core/solvers/intro.hpp
@@ -194,6 +194,9 @@ class SolverIntro : public SolverFDDP {
       ks_;  //!< Feedforward term related to the equality constraints
   std::vector<Eigen::MatrixXd>
       Ks_;  //!< Feedback gain related to the equality constraints
+  std::vector<Eigen::VectorXd>
+      hs_;  //!< Equality constraints of the current guess; those in the data
+            //!< are overwritten when trying a step
   std::vector<Eigen::MatrixXd> QuuinvHuT_;
   std::vector<Eigen::LLT<Eigen::MatrixXd> > Qzz_llt_;  //!< Cholesky LLT solver
   std::vector<Eigen::FullPivLU<Eigen::MatrixXd> >
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index 2b881e6..5395dd2 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -31,6 +31,7 @@ SolverIntro::SolverIntro(std::shared_ptr<ShootingProblem> problem)
   kz_.resize(T);
   Kz_.resize(T);
   ks_.resize(T);
+  hs_.resize(T);
   Ks_.resize(T);
   QuuinvHuT_.resize(T);
   Qzz_llt_.resize(T);
@@ -217,6 +218,7 @@ void SolverIntro::resizeData() {
   kz_.resize(T);
   Kz_.resize(T);
   ks_.resize(T);
+  hs_.resize(T);
   Ks_.resize(T);
   QuuinvHuT_.resize(T);
   Qzz_llt_.resize(T);
@@ -309,6 +311,11 @@ double SolverIntro::calcDiff() {
       }
       break;
     case Schur:
+      for (std::size_t t = 0; t < T; ++t) {
+        if (models[t]->get_nu() > 0 && models[t]->get_nh() > 0) {
+          hs_[t] = datas[t]->h;
+        }
+      }
       break;
   }
 
@@ -408,7 +415,7 @@ void SolverIntro::computeGains(const std::size_t t) {
         }
         Eigen::Transpose<Eigen::MatrixXd> HuQuuinv = QuuinvHuT_[t].transpose();
         Qzz_llt_[t].solveInPlace(HuQuuinv);
-        ks_[t] = data->h;
+        ks_[t] = hs_[t];
         ks_[t].noalias() -= data->Hu * k_[t];
         Ks_[t] = data->Hx;
         Ks_[t].noalias() -= data->Hu * K_[t];
-- 
2.43.0


From 29fe086b4887600e9bc39873b7210ceed0758cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:16 +0000
Subject: [PATCH 21/58] fix: BoxQP mixed the regularised and plain problem and
 had a sign error in its line search

---
 src/core/solvers/box-qp.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 9cb4c3e..2efe30c 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -111,6 +111,7 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
     // Compute the Cauchy point and active set
     g_ = q;
     g_.noalias() += H * x_;
+    g_ += reg_ * x_;
     for (std::size_t j = 0; j < nx_; ++j) {
       const double gj = g_(j);
       const double xj = x_(j);
@@ -164,11 +165,11 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
     dx_.setZero();
     for (std::size_t i = 0; i < nf_; ++i) {
       dx_(solution_.free_idx[i]) = dxf(i);
-      g_(solution_.free_idx[i]) = -qf(i);
+      g_(solution_.free_idx[i]) = qf(i);
     }
 
     // Try different step lengths
-    fold_ = 0.5 * x_.dot(H * x_) + q.dot(x_);
+    fold_ = 0.5 * (x_.dot(H * x_) + reg_ * x_.squaredNorm()) + q.dot(x_);
     for (std::vector<double>::const_iterator it = alphas_.begin();
          it != alphas_.end(); ++it) {
       double steplength = *it;
@@ -176,7 +177,8 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
         xnew_(i) =
             std::max(std::min(x_(i) + steplength * dx_(i), ub(i)), lb(i));
       }
-      fnew_ = 0.5 * xnew_.dot(H * xnew_) + q.dot(xnew_);
+      fnew_ = 0.5 * (xnew_.dot(H * xnew_) + reg_ * xnew_.squaredNorm()) +
+              q.dot(xnew_);
       if (fold_ - fnew_ > th_acceptstep_ * g_.dot(x_ - xnew_)) {
         x_ = xnew_;
         break;
-- 
2.43.0


From a5ef3c3481722cf80031dc6ee18eeeac8b907cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:16 +0000
Subject: [PATCH 22/58] fix: SolverKKT kept state of an earlier solve and could
 not be resized

---
 include/crocoddyl/core/solvers/kkt.hpp | 1 +
 src/core/solvers/kkt.cpp               | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/solvers/kkt.hpp b/include/crocoddyl/core/solvers/kkt.hpp
index f9f9970..bd2990b 100644
--- a/include/crocoddyl/core/solvers/kkt.hpp
+++ b/include/crocoddyl/core/solvers/kkt.hpp
@@ -27,6 +27,7 @@ class SolverKKT : public SolverAbstract {
       const std::vector<Eigen::VectorXd>& init_us = DEFAULT_VECTOR,
       const std::size_t maxiter = 100, const bool is_feasible = false,
       const double regInit = 1e-9);
+  virtual void resizeData();
   virtual void computeDirection(const bool recalc = true);
   virtual double tryStep(const double steplength = 1);
   virtual double stoppingCriteria();
diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index 4fdf988..d8c3529 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -41,7 +41,7 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
   // whether this solver has seen the last update
   problem_->is_updated();
   resizeData();
-  allocateData();
+  was_feasible_ = false;
   setCandidate(init_xs, init_us, is_feasible);
   bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
@@ -84,6 +84,11 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
   return false;
 }
 
+void SolverKKT::resizeData() {
+  SolverAbstract::resizeData();
+  allocateData();
+}
+
 void SolverKKT::computeDirection(const bool recalc) {
   const std::size_t T = problem_->get_T();
   if (recalc) {
-- 
2.43.0


From c350260c719be596024f72fa9d68bfd30124cdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:18 +0000
Subject: [PATCH 23/58] fix: SolverIntro's first regularization update used a
 decrease of an earlier solve

---
 src/core/solvers/intro.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index 5395dd2..61651ce 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -91,6 +91,7 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
     dreg_ = init_reg;
   }
   was_feasible_ = false;
+  dV_ = 0.;
   if (zero_upsilon_) {
     upsilon_ = 0.;
   }
-- 
2.43.0


From 5717628ff3e988ba1cb98822abb4c8edf9fcb554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:51 +0000
Subject: [PATCH 24/58] fix: new activation weights reached the Hessian of only
 one data object

---
 .../core/activations/weighted-quadratic.hpp   | 22 ++-----------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/include/crocoddyl/core/activations/weighted-quadratic.hpp b/include/crocoddyl/core/activations/weighted-quadratic.hpp
index 81c2654..0752581 100644
--- a/include/crocoddyl/core/activations/weighted-quadratic.hpp
+++ b/include/crocoddyl/core/activations/weighted-quadratic.hpp
@@ -30,7 +30,7 @@ class ActivationModelWeightedQuadTpl
   typedef typename MathBase::MatrixXs MatrixXs;
 
   explicit ActivationModelWeightedQuadTpl(const VectorXs& weights)
-      : Base(weights.size()), weights_(weights), new_weights_(false) {};
+      : Base(weights.size()), weights_(weights) {};
   virtual ~ActivationModelWeightedQuadTpl() = default;
 
   virtual void calc(const std::shared_ptr<ActivationDataAbstract>& data,
@@ -56,25 +56,13 @@ class ActivationModelWeightedQuadTpl
 
     std::shared_ptr<Data> d = std::static_pointer_cast<Data>(data);
     data->Ar = d->Wr;
-    if (new_weights_) {
-      data->Arr.diagonal() = weights_;
-      new_weights_ = false;
-    }
-    // The Hessian has constant values which were set in createData.
-#ifndef NDEBUG
-    assert_pretty(MatrixXs(data->Arr).isApprox(Arr_), "Arr has wrong value");
-#endif
+    data->Arr.diagonal() = weights_;
   };
 
   virtual std::shared_ptr<ActivationDataAbstract> createData() override {
     std::shared_ptr<Data> data =
         std::allocate_shared<Data>(Eigen::aligned_allocator<Data>(), this);
     data->Arr.diagonal() = weights_;
-
-#ifndef NDEBUG
-    Arr_ = data->Arr;
-#endif
-
     return data;
   };
 
@@ -94,7 +82,6 @@ class ActivationModelWeightedQuadTpl
     }
 
     weights_ = weights;
-    new_weights_ = true;
   };
 
   /**
@@ -111,11 +98,6 @@ class ActivationModelWeightedQuadTpl
 
  private:
   VectorXs weights_;
-  bool new_weights_;
-
-#ifndef NDEBUG
-  MatrixXs Arr_;
-#endif
 };
 
 template <typename _Scalar>
-- 
2.43.0


From fff43c38ca64676affa187bb255eb0dc655c64eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:51 +0000
Subject: [PATCH 25/58] fix: the numdiff control parametrisation left w of its
 data untouched in calc

---
 include/crocoddyl/core/numdiff/control.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/numdiff/control.hxx b/include/crocoddyl/core/numdiff/control.hxx
index bf3d9fd..16e7952 100644
--- a/include/crocoddyl/core/numdiff/control.hxx
+++ b/include/crocoddyl/core/numdiff/control.hxx
@@ -23,6 +23,7 @@ void ControlParametrizationModelNumDiffTpl<Scalar>::calc(
     const Scalar t, const Eigen::Ref<const VectorXs>& u) const {
   std::shared_ptr<Data> data_nd = std::static_pointer_cast<Data>(data);
   model_->calc(data_nd->data_0, t, u);
+  data->w = data_nd->data_0->w;
 }
 
 template <typename Scalar>
@@ -53,7 +54,9 @@ template <typename Scalar>
 void ControlParametrizationModelNumDiffTpl<Scalar>::params(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
     const Scalar t, const Eigen::Ref<const VectorXs>& w) const {
-  model_->params(data, t, w);
+  std::shared_ptr<Data> data_nd = std::static_pointer_cast<Data>(data);
+  model_->params(data_nd->data_0, t, w);
+  data->u = data_nd->data_0->u;
 }
 
 template <typename Scalar>
-- 
2.43.0


From 7c94a2c0f6d8db815c40395e9678b2beeccccb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:52 +0000
Subject: [PATCH 26/58] fix: the numdiff residual used the step of an earlier
 point on terminal nodes

---
 include/crocoddyl/core/numdiff/residual.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/residual.hxx b/include/crocoddyl/core/numdiff/residual.hxx
index 84af121..c79f54c 100644
--- a/include/crocoddyl/core/numdiff/residual.hxx
+++ b/include/crocoddyl/core/numdiff/residual.hxx
@@ -89,7 +89,10 @@ void ResidualModelNumDiffTpl<Scalar>::calcDiff(
   assertStableStateFD(x);
 
   // Computing the d residual(x,u) / dx
+  model_->get_state()->diff(model_->get_state()->zero(), x, d->dx);
+  d->x_norm = d->dx.norm();
   d->dx.setZero();
+  d->xh_jac = e_jac_ * std::max(Scalar(1.), d->x_norm);
   for (std::size_t ix = 0; ix < state_->get_ndx(); ++ix) {
     d->dx(ix) = d->xh_jac;
     model_->get_state()->integrate(x, d->dx, d->xp);
-- 
2.43.0


From 331ff9a7ee13729450703ebc2579dbb0bc2b9c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:52 +0000
Subject: [PATCH 27/58] fix: the Runge-Kutta quasi-static control kept a NaN of
 an earlier evaluation

---
 include/crocoddyl/core/integrator/rk.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index fd8db9b..45625fa 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -391,7 +391,7 @@ void IntegratedActionModelRKTpl<Scalar>::quasiStatic(
   Data* d = static_cast<Data*>(data.get());
   const std::shared_ptr<ControlParametrizationDataAbstract>& u0_data =
       d->control[0];
-  u0_data->w *= Scalar(0.);
+  u0_data->w.setZero();
   differential_->quasiStatic(d->differential[0], u0_data->w, x, maxiter, tol);
   control_->params(u0_data, Scalar(0.), u0_data->w);
   u = u0_data->u;
-- 
2.43.0


From df86bf7d48f960840a96b8741065632f42197bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:00 +0000
Subject: [PATCH 28/58] fix: the bounds of a constraint manager were undefined
 until the next evaluation

---
 .../core/constraints/constraint-manager.hpp   |  5 ++
 .../core/constraints/constraint-manager.hxx   | 48 ++++++++++++++-----
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/include/crocoddyl/core/constraints/constraint-manager.hpp b/include/crocoddyl/core/constraints/constraint-manager.hpp
index 1c6d112..703e087 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hpp
+++ b/include/crocoddyl/core/constraints/constraint-manager.hpp
@@ -278,6 +278,11 @@ class ConstraintModelManagerTpl {
       std::ostream& os, const ConstraintModelManagerTpl<Scalar>& model);
 
  private:
+  /**
+   * @brief Rebuild the bounds of the active inequality constraints
+   */
+  void updateBounds();
+
   std::shared_ptr<StateAbstract> state_;  //!< State description
   ConstraintModelContainer constraints_;  //!< Stack of constraint items
   VectorXs lb_;                           //!< Lower bound of the constraint
diff --git a/include/crocoddyl/core/constraints/constraint-manager.hxx b/include/crocoddyl/core/constraints/constraint-manager.hxx
index fde4255..1a857b9 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hxx
+++ b/include/crocoddyl/core/constraints/constraint-manager.hxx
@@ -58,8 +58,7 @@ void ConstraintModelManagerTpl<Scalar>::addConstraint(
       nh_T_ += constraint->get_nh();
     }
     active_set_.insert(name);
-    lb_.resize(ng_);
-    ub_.resize(ng_);
+    updateBounds();
   } else if (!active) {
     inactive_set_.insert(name);
   }
@@ -77,8 +76,8 @@ void ConstraintModelManagerTpl<Scalar>::removeConstraint(
         ng_T_ -= it->second->constraint->get_ng();
         nh_T_ -= it->second->constraint->get_nh();
       }
-      lb_.resize(ng_);
-      ub_.resize(ng_);
+      it->second->active = false;
+      updateBounds();
       active_set_.erase(name);
     } else {
       inactive_set_.erase(name);
@@ -105,8 +104,7 @@ void ConstraintModelManagerTpl<Scalar>::changeConstraintStatus(
       active_set_.insert(name);
       inactive_set_.erase(name);
       it->second->active = active;
-      lb_.resize(ng_);
-      ub_.resize(ng_);
+      updateBounds();
     } else if (!active && it->second->active) {
       ng_ -= it->second->constraint->get_ng();
       nh_ -= it->second->constraint->get_nh();
@@ -117,8 +115,7 @@ void ConstraintModelManagerTpl<Scalar>::changeConstraintStatus(
       active_set_.erase(name);
       inactive_set_.insert(name);
       it->second->active = active;
-      lb_.resize(ng_);
-      ub_.resize(ng_);
+      updateBounds();
     }
   } else {
     std::cout << "Warning: we couldn't change the status of the " << name
@@ -126,6 +123,23 @@ void ConstraintModelManagerTpl<Scalar>::changeConstraintStatus(
   }
 }
 
+template <typename Scalar>
+void ConstraintModelManagerTpl<Scalar>::updateBounds() {
+  lb_.resize(ng_);
+  ub_.resize(ng_);
+  std::size_t ng_i = 0;
+  for (typename ConstraintModelContainer::const_iterator it =
+           constraints_.begin();
+       it != constraints_.end(); ++it) {
+    if (it->second->active) {
+      const std::size_t ng = it->second->constraint->get_ng();
+      lb_.segment(ng_i, ng) = it->second->constraint->get_lb().head(ng);
+      ub_.segment(ng_i, ng) = it->second->constraint->get_ub().head(ng);
+      ng_i += ng;
+    }
+  }
+}
+
 template <typename Scalar>
 void ConstraintModelManagerTpl<Scalar>::calc(
     const std::shared_ptr<ConstraintDataManager>& data,
@@ -170,8 +184,13 @@ void ConstraintModelManagerTpl<Scalar>::calc(
       const std::size_t nh = m_i->constraint->get_nh();
       data->g.segment(ng_i, ng) = d_i->g;
       data->h.segment(nh_i, nh) = d_i->h;
-      lb_.segment(ng_i, ng) = m_i->constraint->get_lb();
-      ub_.segment(ng_i, ng) = m_i->constraint->get_ub();
+      // the model can be shared by nodes that are evaluated concurrently
+      if (lb_.segment(ng_i, ng) != m_i->constraint->get_lb().head(ng)) {
+        lb_.segment(ng_i, ng) = m_i->constraint->get_lb().head(ng);
+      }
+      if (ub_.segment(ng_i, ng) != m_i->constraint->get_ub().head(ng)) {
+        ub_.segment(ng_i, ng) = m_i->constraint->get_ub().head(ng);
+      }
       ng_i += ng;
       nh_i += nh;
     }
@@ -217,8 +236,13 @@ void ConstraintModelManagerTpl<Scalar>::calc(
       const std::size_t nh = m_i->constraint->get_nh();
       data->g.segment(ng_i, ng) = d_i->g;
       data->h.segment(nh_i, nh) = d_i->h;
-      lb_.segment(ng_i, ng) = m_i->constraint->get_lb();
-      ub_.segment(ng_i, ng) = m_i->constraint->get_ub();
+      // the model can be shared by nodes that are evaluated concurrently
+      if (lb_.segment(ng_i, ng) != m_i->constraint->get_lb().head(ng)) {
+        lb_.segment(ng_i, ng) = m_i->constraint->get_lb().head(ng);
+      }
+      if (ub_.segment(ng_i, ng) != m_i->constraint->get_ub().head(ng)) {
+        ub_.segment(ng_i, ng) = m_i->constraint->get_ub().head(ng);
+      }
       ng_i += ng;
       nh_i += nh;
     }
-- 
2.43.0


From 55e7f99c73b883eeb004b98e3cd4cf5695847b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 29/58] fix: update_bounds checked the previous bounds instead
 of the new ones

---
 include/crocoddyl/core/constraint-base.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/crocoddyl/core/constraint-base.hxx b/include/crocoddyl/core/constraint-base.hxx
index 5e39a77..70897f1 100644
--- a/include/crocoddyl/core/constraint-base.hxx
+++ b/include/crocoddyl/core/constraint-base.hxx
@@ -118,16 +118,16 @@ void ConstraintModelAbstractTpl<Scalar>::update_bounds(const VectorXs& lower,
     throw_pretty(
         "Invalid argument: the upper bound is not higher than the lower bound.")
   }
-  if ((lb_.array() == std::numeric_limits<Scalar>::infinity()).any() ||
-      (lb_.array() == std::numeric_limits<Scalar>::max()).any()) {
+  if ((lower.array() == std::numeric_limits<Scalar>::infinity()).any() ||
+      (lower.array() == std::numeric_limits<Scalar>::max()).any()) {
     throw_pretty(
         "Invalid argument: the lower bound cannot contain a positive "
         "infinity/max value");
   }
-  if ((ub_.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
-      (ub_.array() == -std::numeric_limits<Scalar>::infinity()).any()) {
+  if ((upper.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
+      (upper.array() == -std::numeric_limits<Scalar>::max()).any()) {
     throw_pretty(
-        "Invalid argument: the lower bound cannot contain a negative "
+        "Invalid argument: the upper bound cannot contain a negative "
         "infinity/min value");
   }
   ng_ = ng_internal_;
-- 
2.43.0


From f41abc1065aec50f56fa3b82b6b5007c94f0b349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 30/58] fix: the cost sum miscounted residuals of removed
 inactive and of duplicated costs

---
 include/crocoddyl/core/costs/cost-sum.hxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/costs/cost-sum.hxx b/include/crocoddyl/core/costs/cost-sum.hxx
index e05dc1c..c6522fe 100644
--- a/include/crocoddyl/core/costs/cost-sum.hxx
+++ b/include/crocoddyl/core/costs/cost-sum.hxx
@@ -56,8 +56,12 @@ void CostModelSumTpl<Scalar>::addCost(
         << " cost item doesn't have the same control dimension (it should be " +
                std::to_string(nu_) + ")");
   }
-  costs_.insert(std::make_pair(cost_item->name, cost_item));
-  if (cost_item->active) {
+  std::pair<typename CostModelContainer::iterator, bool> ret =
+      costs_.insert(std::make_pair(cost_item->name, cost_item));
+  if (ret.second == false) {
+    std::cerr << "Warning: we couldn't add the " << cost_item->name
+              << " cost item, it already existed." << std::endl;
+  } else if (cost_item->active) {
     nr_ += cost_item->cost->get_activation()->get_nr();
     nr_total_ += cost_item->cost->get_activation()->get_nr();
     active_set_.insert(cost_item->name);
@@ -71,7 +75,9 @@ template <typename Scalar>
 void CostModelSumTpl<Scalar>::removeCost(const std::string& name) {
   typename CostModelContainer::iterator it = costs_.find(name);
   if (it != costs_.end()) {
-    nr_ -= it->second->cost->get_activation()->get_nr();
+    if (it->second->active) {
+      nr_ -= it->second->cost->get_activation()->get_nr();
+    }
     nr_total_ -= it->second->cost->get_activation()->get_nr();
     costs_.erase(it);
     active_set_.erase(name);
-- 
2.43.0


From 30d02faa838110c03ba32045799a9ddd0ae48697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:48 +0000
Subject: [PATCH 31/58] fix: the joint-acceleration residual is constant on
 terminal nodes but kept its running derivatives

---
 include/crocoddyl/core/residuals/joint-acceleration.hpp | 8 ++++++++
 include/crocoddyl/core/residuals/joint-acceleration.hxx | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/include/crocoddyl/core/residuals/joint-acceleration.hpp b/include/crocoddyl/core/residuals/joint-acceleration.hpp
index 055a3e2..9991d74 100644
--- a/include/crocoddyl/core/residuals/joint-acceleration.hpp
+++ b/include/crocoddyl/core/residuals/joint-acceleration.hpp
@@ -126,6 +126,14 @@ class ResidualModelJointAccelerationTpl
                         const Eigen::Ref<const VectorXs>& x,
                         const Eigen::Ref<const VectorXs>& u) override;
 
+  /**
+   * @brief @copydoc Base::calcDiff(const
+   * std::shared_ptr<ResidualDataAbstract>& data, const Eigen::Ref<const
+   * VectorXs>& x)
+   */
+  virtual void calcDiff(const std::shared_ptr<ResidualDataAbstract>& data,
+                        const Eigen::Ref<const VectorXs>& x) override;
+
   /**
    * @brief Create the joint-acceleration residual data
    */
diff --git a/include/crocoddyl/core/residuals/joint-acceleration.hxx b/include/crocoddyl/core/residuals/joint-acceleration.hxx
index 5d81e04..19fd6e9 100644
--- a/include/crocoddyl/core/residuals/joint-acceleration.hxx
+++ b/include/crocoddyl/core/residuals/joint-acceleration.hxx
@@ -70,6 +70,13 @@ void ResidualModelJointAccelerationTpl<Scalar>::calcDiff(
   data->Ru = d->joint->da_du;
 }
 
+template <typename Scalar>
+void ResidualModelJointAccelerationTpl<Scalar>::calcDiff(
+    const std::shared_ptr<ResidualDataAbstract>& data,
+    const Eigen::Ref<const VectorXs>&) {
+  data->Rx.setZero();
+}
+
 template <typename Scalar>
 std::shared_ptr<ResidualDataAbstractTpl<Scalar> >
 ResidualModelJointAccelerationTpl<Scalar>::createData(
-- 
2.43.0


From 89db6708b0307202e7934717d8eec192d0445286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:48 +0000
Subject: [PATCH 32/58] fix: a joint-effort residual constructor left its
 forward-dynamics flag undefined

---
 include/crocoddyl/core/residuals/joint-effort.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/residuals/joint-effort.hxx b/include/crocoddyl/core/residuals/joint-effort.hxx
index 2cbd71c..29c0824 100644
--- a/include/crocoddyl/core/residuals/joint-effort.hxx
+++ b/include/crocoddyl/core/residuals/joint-effort.hxx
@@ -57,7 +57,8 @@ ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
     std::shared_ptr<ActuationModelAbstract> actuation)
     : Base(state, actuation->get_nu(), state->get_nv(), true, true, true),
       actuation_(actuation),
-      uref_(VectorXs::Zero(actuation->get_nu())) {}
+      uref_(VectorXs::Zero(actuation->get_nu())),
+      fwddyn_(false) {}
 
 template <typename Scalar>
 void ResidualModelJointEffortTpl<Scalar>::calc(
-- 
2.43.0


From c83689bcf8cd6d1dc8cdb5aec7fffeb60c2b8d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:24 +0000
Subject: [PATCH 33/58] fix: cost and constraint registries misplaced items
 when a call failed midway or named an item by its own entry

---
 .../core/constraints/constraint-manager.hpp   |   4 +-
 .../core/constraints/constraint-manager.hxx   | 107 +++++++++---------
 include/crocoddyl/core/costs/cost-sum.hxx     |  44 ++++---
 3 files changed, 75 insertions(+), 80 deletions(-)

diff --git a/include/crocoddyl/core/constraints/constraint-manager.hpp b/include/crocoddyl/core/constraints/constraint-manager.hpp
index 703e087..a43661e 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hpp
+++ b/include/crocoddyl/core/constraints/constraint-manager.hpp
@@ -279,9 +279,9 @@ class ConstraintModelManagerTpl {
 
  private:
   /**
-   * @brief Rebuild the bounds of the active inequality constraints
+   * @brief Recompute the dimensions and bounds of the active constraints
    */
-  void updateBounds();
+  void updateDimensions();
 
   std::shared_ptr<StateAbstract> state_;  //!< State description
   ConstraintModelContainer constraints_;  //!< Stack of constraint items
diff --git a/include/crocoddyl/core/constraints/constraint-manager.hxx b/include/crocoddyl/core/constraints/constraint-manager.hxx
index 1a857b9..fe8d0e0 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hxx
+++ b/include/crocoddyl/core/constraints/constraint-manager.hxx
@@ -50,17 +50,18 @@ void ConstraintModelManagerTpl<Scalar>::addConstraint(
   if (ret.second == false) {
     std::cout << "Warning: we couldn't add the " << name
               << " constraint item, it already existed." << std::endl;
-  } else if (active) {
-    ng_ += constraint->get_ng();
-    nh_ += constraint->get_nh();
-    if (constraint->get_T_constraint()) {
-      ng_T_ += constraint->get_ng();
-      nh_T_ += constraint->get_nh();
+    return;
+  }
+  try {
+    (active ? active_set_ : inactive_set_).insert(name);
+    if (active) {
+      updateDimensions();
     }
-    active_set_.insert(name);
-    updateBounds();
-  } else if (!active) {
-    inactive_set_.insert(name);
+  } catch (...) {
+    active_set_.erase(name);
+    inactive_set_.erase(name);
+    constraints_.erase(ret.first);
+    throw;
   }
 }
 
@@ -69,19 +70,10 @@ void ConstraintModelManagerTpl<Scalar>::removeConstraint(
     const std::string& name) {
   typename ConstraintModelContainer::iterator it = constraints_.find(name);
   if (it != constraints_.end()) {
-    if (it->second->active) {
-      ng_ -= it->second->constraint->get_ng();
-      nh_ -= it->second->constraint->get_nh();
-      if (it->second->constraint->get_T_constraint()) {
-        ng_T_ -= it->second->constraint->get_ng();
-        nh_T_ -= it->second->constraint->get_nh();
-      }
-      it->second->active = false;
-      updateBounds();
-      active_set_.erase(name);
-    } else {
-      inactive_set_.erase(name);
-    }
+    // the name might be owned by the entries that are erased here
+    const std::string key = name;
+    changeConstraintStatus(key, false);
+    inactive_set_.erase(key);
     constraints_.erase(it);
   } else {
     std::cout << "Warning: we couldn't remove the " << name
@@ -94,28 +86,20 @@ void ConstraintModelManagerTpl<Scalar>::changeConstraintStatus(
     const std::string& name, bool active) {
   typename ConstraintModelContainer::iterator it = constraints_.find(name);
   if (it != constraints_.end()) {
-    if (active && !it->second->active) {
-      ng_ += it->second->constraint->get_ng();
-      nh_ += it->second->constraint->get_nh();
-      if (it->second->constraint->get_T_constraint()) {
-        ng_T_ += it->second->constraint->get_ng();
-        nh_T_ += it->second->constraint->get_nh();
-      }
-      active_set_.insert(name);
-      inactive_set_.erase(name);
+    if (active != it->second->active) {
+      std::set<std::string>& from = active ? inactive_set_ : active_set_;
+      std::set<std::string>& to = active ? active_set_ : inactive_set_;
+      const std::set<std::string>::iterator entry = to.insert(name).first;
       it->second->active = active;
-      updateBounds();
-    } else if (!active && it->second->active) {
-      ng_ -= it->second->constraint->get_ng();
-      nh_ -= it->second->constraint->get_nh();
-      if (it->second->constraint->get_T_constraint()) {
-        ng_T_ -= it->second->constraint->get_ng();
-        nh_T_ -= it->second->constraint->get_nh();
+      try {
+        updateDimensions();
+      } catch (...) {
+        it->second->active = !active;
+        to.erase(entry);
+        throw;
       }
-      active_set_.erase(name);
-      inactive_set_.insert(name);
-      it->second->active = active;
-      updateBounds();
+      // the name might be owned by the set it is erased from
+      from.erase(name);
     }
   } else {
     std::cout << "Warning: we couldn't change the status of the " << name
@@ -124,20 +108,37 @@ void ConstraintModelManagerTpl<Scalar>::changeConstraintStatus(
 }
 
 template <typename Scalar>
-void ConstraintModelManagerTpl<Scalar>::updateBounds() {
-  lb_.resize(ng_);
-  ub_.resize(ng_);
+void ConstraintModelManagerTpl<Scalar>::updateDimensions() {
+  std::size_t ng = 0, nh = 0, ng_T = 0, nh_T = 0;
+  typename ConstraintModelContainer::const_iterator it;
+  for (it = constraints_.begin(); it != constraints_.end(); ++it) {
+    if (it->second->active) {
+      const std::shared_ptr<ConstraintModelAbstract>& m =
+          it->second->constraint;
+      ng += m->get_ng();
+      nh += m->get_nh();
+      if (m->get_T_constraint()) {
+        ng_T += m->get_ng();
+        nh_T += m->get_nh();
+      }
+    }
+  }
+  VectorXs lb(ng), ub(ng);
   std::size_t ng_i = 0;
-  for (typename ConstraintModelContainer::const_iterator it =
-           constraints_.begin();
-       it != constraints_.end(); ++it) {
+  for (it = constraints_.begin(); it != constraints_.end(); ++it) {
     if (it->second->active) {
-      const std::size_t ng = it->second->constraint->get_ng();
-      lb_.segment(ng_i, ng) = it->second->constraint->get_lb().head(ng);
-      ub_.segment(ng_i, ng) = it->second->constraint->get_ub().head(ng);
-      ng_i += ng;
+      const std::size_t n = it->second->constraint->get_ng();
+      lb.segment(ng_i, n) = it->second->constraint->get_lb().head(n);
+      ub.segment(ng_i, n) = it->second->constraint->get_ub().head(n);
+      ng_i += n;
     }
   }
+  lb_.swap(lb);
+  ub_.swap(ub);
+  ng_ = ng;
+  nh_ = nh;
+  ng_T_ = ng_T;
+  nh_T_ = nh_T;
 }
 
 template <typename Scalar>
diff --git a/include/crocoddyl/core/costs/cost-sum.hxx b/include/crocoddyl/core/costs/cost-sum.hxx
index c6522fe..d75761a 100644
--- a/include/crocoddyl/core/costs/cost-sum.hxx
+++ b/include/crocoddyl/core/costs/cost-sum.hxx
@@ -31,20 +31,7 @@ void CostModelSumTpl<Scalar>::addCost(const std::string& name,
         << " cost item doesn't have the same control dimension (it should be " +
                std::to_string(nu_) + ")");
   }
-  std::pair<typename CostModelContainer::iterator, bool> ret =
-      costs_.insert(std::make_pair(
-          name, std::make_shared<CostItem>(name, cost, weight, active)));
-  if (ret.second == false) {
-    std::cerr << "Warning: we couldn't add the " << name
-              << " cost item, it already existed." << std::endl;
-  } else if (active) {
-    nr_ += cost->get_activation()->get_nr();
-    nr_total_ += cost->get_activation()->get_nr();
-    active_set_.insert(name);
-  } else if (!active) {
-    nr_total_ += cost->get_activation()->get_nr();
-    inactive_set_.insert(name);
-  }
+  addCost(std::make_shared<CostItem>(name, cost, weight, active));
 }
 
 template <typename Scalar>
@@ -61,27 +48,33 @@ void CostModelSumTpl<Scalar>::addCost(
   if (ret.second == false) {
     std::cerr << "Warning: we couldn't add the " << cost_item->name
               << " cost item, it already existed." << std::endl;
-  } else if (cost_item->active) {
+    return;
+  }
+  try {
+    (cost_item->active ? active_set_ : inactive_set_).insert(cost_item->name);
+  } catch (...) {
+    costs_.erase(ret.first);
+    throw;
+  }
+  if (cost_item->active) {
     nr_ += cost_item->cost->get_activation()->get_nr();
-    nr_total_ += cost_item->cost->get_activation()->get_nr();
-    active_set_.insert(cost_item->name);
-  } else {
-    nr_total_ += cost_item->cost->get_activation()->get_nr();
-    inactive_set_.insert(cost_item->name);
   }
+  nr_total_ += cost_item->cost->get_activation()->get_nr();
 }
 
 template <typename Scalar>
 void CostModelSumTpl<Scalar>::removeCost(const std::string& name) {
   typename CostModelContainer::iterator it = costs_.find(name);
   if (it != costs_.end()) {
+    // the name might be owned by the entries that are erased here
+    const std::string key = name;
     if (it->second->active) {
       nr_ -= it->second->cost->get_activation()->get_nr();
     }
     nr_total_ -= it->second->cost->get_activation()->get_nr();
     costs_.erase(it);
-    active_set_.erase(name);
-    inactive_set_.erase(name);
+    active_set_.erase(key);
+    inactive_set_.erase(key);
   } else {
     std::cerr << "Warning: we couldn't remove the " << name
               << " cost item, it doesn't exist." << std::endl;
@@ -93,15 +86,16 @@ void CostModelSumTpl<Scalar>::changeCostStatus(const std::string& name,
                                                const bool active) {
   typename CostModelContainer::iterator it = costs_.find(name);
   if (it != costs_.end()) {
+    // the name might be owned by the set it is erased from
     if (active && !it->second->active) {
-      nr_ += it->second->cost->get_activation()->get_nr();
       active_set_.insert(name);
       inactive_set_.erase(name);
+      nr_ += it->second->cost->get_activation()->get_nr();
       it->second->active = active;
     } else if (!active && it->second->active) {
-      nr_ -= it->second->cost->get_activation()->get_nr();
-      active_set_.erase(name);
       inactive_set_.insert(name);
+      active_set_.erase(name);
+      nr_ -= it->second->cost->get_activation()->get_nr();
       it->second->active = active;
     }
   } else {
-- 
2.43.0


From a888b1bac4631bbcd9c726b2e029f416f1971e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:24 +0000
Subject: [PATCH 34/58] fix: resizing the data of a constraint manager to more
 constraints mapped memory it did not own

---
 include/crocoddyl/core/constraints/constraint-manager.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/crocoddyl/core/constraints/constraint-manager.hpp b/include/crocoddyl/core/constraints/constraint-manager.hpp
index a43661e..c8bdbc4 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hpp
+++ b/include/crocoddyl/core/constraints/constraint-manager.hpp
@@ -368,6 +368,12 @@ struct ConstraintDataManagerTpl {
     const std::size_t nu = model->get_nu();
     const std::size_t ng = running_node ? model->get_ng() : model->get_ng_T();
     const std::size_t nh = running_node ? model->get_nh() : model->get_nh_T();
+    g_internal.conservativeResize(ng);
+    Gx_internal.conservativeResize(ng, ndx);
+    Gu_internal.conservativeResize(ng, nu);
+    h_internal.conservativeResize(nh);
+    Hx_internal.conservativeResize(nh, ndx);
+    Hu_internal.conservativeResize(nh, nu);
     new (&g) Eigen::Map<VectorXs>(g_internal.data(), ng);
     new (&Gx) Eigen::Map<MatrixXs>(Gx_internal.data(), ng, ndx);
     new (&Gu) Eigen::Map<MatrixXs>(Gu_internal.data(), ng, nu);
-- 
2.43.0


From 657818eb7a9d304f146a49d9c19d33b3331ff941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:46 +0000
Subject: [PATCH 35/58] fix: BoxQP was left with mixed dimensions when resizing
 it ran out of memory

---
 src/core/solvers/box-qp.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 2efe30c..a798705 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -210,15 +210,19 @@ double BoxQP::get_reg() const { return reg_; }
 const std::vector<double>& BoxQP::get_alphas() const { return alphas_; }
 
 void BoxQP::set_nx(const std::size_t nx) {
+  // Nothing changes if there isn't enough memory
+  Eigen::VectorXd x = Eigen::VectorXd::Zero(nx);
+  Eigen::VectorXd xnew = x, g = x, dx = x, xo = x, dxo = x, qo = x;
+  Eigen::MatrixXd Ho = Eigen::MatrixXd::Zero(nx, nx);
   nx_ = nx;
-  x_.conservativeResize(nx);
-  xnew_.conservativeResize(nx);
-  g_.conservativeResize(nx);
-  dx_.conservativeResize(nx);
-  xo_.conservativeResize(nx);
-  dxo_.conservativeResize(nx);
-  qo_.conservativeResize(nx);
-  Ho_.conservativeResize(nx, nx);
+  x_.swap(x);
+  xnew_.swap(xnew);
+  g_.swap(g);
+  dx_.swap(dx);
+  xo_.swap(xo);
+  dxo_.swap(dxo);
+  qo_.swap(qo);
+  Ho_.swap(Ho);
 }
 
 void BoxQP::set_maxiter(const std::size_t maxiter) { maxiter_ = maxiter; }
-- 
2.43.0


From 8a18f4da457103751a4d7e1e4ac0564f391ccec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:22 +0000
Subject: [PATCH 36/58] fix: profiler lost the minimum of a first stop and
 counted pauses in wrong units and repeatedly

---
 include/crocoddyl/core/utils/stop-watch.hpp |  2 ++
 src/core/utils/stop-watch.cpp               | 34 ++++++++++++++-------
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/include/crocoddyl/core/utils/stop-watch.hpp b/include/crocoddyl/core/utils/stop-watch.hpp
index 02bc53e..a0d2ca5 100644
--- a/include/crocoddyl/core/utils/stop-watch.hpp
+++ b/include/crocoddyl/core/utils/stop-watch.hpp
@@ -260,6 +260,7 @@ class Stopwatch {
           min_time(std::numeric_limits<long double>::max()),
           max_time(std::numeric_limits<long double>::min()),
           last_time(0),
+          paused_time(0),
           paused(false),
           stops(0) {}
 
@@ -268,6 +269,7 @@ class Stopwatch {
     long double min_time;     //!< Minimum time
     long double max_time;     //!< Maximum time
     long double last_time;    //!< Last time
+    long double paused_time;  //!< Time of the current measurement before pauses
     bool paused;  //!< Tells if this performance has been paused, only for
                   //!< internal use
     int stops;    //!< How many cycles have been this stopwatch executed?
diff --git a/src/core/utils/stop-watch.cpp b/src/core/utils/stop-watch.cpp
index d4051c7..3d7d4a9 100644
--- a/src/core/utils/stop-watch.cpp
+++ b/src/core/utils/stop-watch.cpp
@@ -142,27 +142,34 @@ void Stopwatch::stop_perf(PerformanceData& perf_info, long double clock_end) {
   if (perf_info.clock_start == 0) return;
 
   perf_info.stops++;
-  long double lapse = clock_end - perf_info.clock_start;
+  long double lapse = 0;
+  if (perf_info.paused) {
+    // the time up to the pause was already added
+    perf_info.clock_start = 0;
+  } else {
+    lapse = clock_end - perf_info.clock_start;
+    if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+  }
 
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+  // Update total time
+  perf_info.total_time += lapse;
 
   // Update last time
+  lapse += perf_info.paused_time;
+  perf_info.paused_time = 0;
   perf_info.last_time = lapse;
 
   // Update min/max time
-  if (lapse >= perf_info.max_time)
+  if (perf_info.stops == 1 || lapse > perf_info.max_time)
     perf_info.max_time = lapse;
-  else if (lapse <= perf_info.min_time)
+  if (perf_info.stops == 1 || lapse < perf_info.min_time)
     perf_info.min_time = lapse;
-
-  // Update total time
-  perf_info.total_time += lapse;
 }
 
 void Stopwatch::pause(const string& perf_name) {
   if (!active) return;
 
-  long double clock_end = (long double)clock();
+  long double clock_end = take_time();
 
   // Try to recover performance data
   if (!performance_exists(perf_name))
@@ -170,14 +177,18 @@ void Stopwatch::pause(const string& perf_name) {
 
   PerformanceData& perf_info = records_of->find(perf_name)->second;
 
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
+  // check whether the performance has been reset or is already paused
+  if (perf_info.clock_start == 0 || perf_info.paused) return;
 
   long double lapse = clock_end - perf_info.clock_start;
 
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
   // Update total time
-  perf_info.last_time += lapse;
+  perf_info.paused_time += lapse;
+  perf_info.last_time = perf_info.paused_time;
   perf_info.total_time += lapse;
+  perf_info.paused = true;
 }
 
 void Stopwatch::reset_all() {
@@ -229,6 +240,7 @@ void Stopwatch::reset(const string& perf_name) {
   perf_info.min_time = 0;
   perf_info.max_time = 0;
   perf_info.last_time = 0;
+  perf_info.paused_time = 0;
   perf_info.paused = false;
   perf_info.stops = 0;
 }
-- 
2.43.0


From 33ac41fca5315e48029ebbba051226ad4f666dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:22 +0000
Subject: [PATCH 37/58] fix: profiler watchers ignored turn_off, or never
 stopped when created while it was in effect

---
 src/core/utils/stop-watch.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/utils/stop-watch.cpp b/src/core/utils/stop-watch.cpp
index 3d7d4a9..239688f 100644
--- a/src/core/utils/stop-watch.cpp
+++ b/src/core/utils/stop-watch.cpp
@@ -360,7 +360,7 @@ Stopwatch::Watcher Stopwatch::watcher(const string& perf_name) {
 }
 
 void Stopwatch::Watcher::_start() {
-  if (!w.profiler_active) return;
+  if (!w.active || !w.profiler_active) return;
 
   if (p == nullptr) {
     p = &w.get_or_create_perf(n);
@@ -371,7 +371,14 @@ void Stopwatch::Watcher::_start() {
 }
 
 void Stopwatch::Watcher::_stop() {
-  if (!w.profiler_active || (p == nullptr)) return;
+  if (!w.active || !w.profiler_active) return;
+
+  if (p == nullptr) {
+    // the watcher was created while the clock was off
+    const auto it = w.records_of->find(n);
+    if (it == w.records_of->end()) return;
+    p = &it->second;
+  }
 
   long double clock_end = w.take_time();
   w.stop_perf(*p, clock_end);
-- 
2.43.0


From 06a6d58f75f5d0f99195b8375dade570b67f9d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:29 +0000
Subject: [PATCH 38/58] fix: enabling the profiler during a solve made the
 solve throw

---
 include/crocoddyl/core/utils/stop-watch.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/utils/stop-watch.hpp b/include/crocoddyl/core/utils/stop-watch.hpp
index a0d2ca5..8018e10 100644
--- a/include/crocoddyl/core/utils/stop-watch.hpp
+++ b/include/crocoddyl/core/utils/stop-watch.hpp
@@ -38,8 +38,12 @@
 
 #define START_PROFILER(name) \
   getProfiler().profiler_status() ? getProfiler().start(name) : void()
-#define STOP_PROFILER(name) \
-  getProfiler().profiler_status() ? getProfiler().stop(name) : void()
+// A profiler that was enabled inside a measured section hasn't seen its start
+#define STOP_PROFILER(name)                          \
+  getProfiler().profiler_status() &&                 \
+          getProfiler().performance_exists(name)     \
+      ? getProfiler().stop(name)                     \
+      : void()
 
 #define STOP_WATCH_MAX_NAME_LENGTH 60
 #define STOP_WATCH_TIME_WIDTH 10
-- 
2.43.0


From 2ff3862156e40784da3df56c3397410f2e4267e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:23 +0000
Subject: [PATCH 39/58] fix: the expected improvement of a new solver was
 undefined

---
 src/core/solver-base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index a104c78..6f86d56 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -22,6 +22,7 @@ SolverAbstract::SolverAbstract(std::shared_ptr<ShootingProblem> problem)
       cost_(0.),
       merit_(0.),
       stop_(0.),
+      d_(Eigen::Vector2d::Zero()),
       dV_(0.),
       dPhi_(0.),
       dVexp_(0.),
-- 
2.43.0


From 3c22ac528b1347df5bb2748617bcdcfefa887828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:18 +0000
Subject: [PATCH 40/58] fix: a CSV stream ended the process when its disk
 failed at destruction

---
 include/crocoddyl/core/utils/file-io.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/utils/file-io.hpp b/include/crocoddyl/core/utils/file-io.hpp
index c71cab2..bd83923 100644
--- a/include/crocoddyl/core/utils/file-io.hpp
+++ b/include/crocoddyl/core/utils/file-io.hpp
@@ -35,8 +35,12 @@ class CsvStream {
   }
 
   ~CsvStream() {
-    flush();
-    fs_.close();
+    // The stream raises its failures, but a destructor has to keep them
+    try {
+      flush();
+      fs_.close();
+    } catch (const std::ios_base::failure&) {
+    }
   }
 
   void flush() { fs_.flush(); }
-- 
2.43.0


From 8186a60e4f4661655a34a6326fdd9ecd8c83c615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:58 +0000
Subject: [PATCH 41/58] fix: non-finite derivatives crashed Ipopt's linear
 solver

---
 src/core/solvers/ipopt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/solvers/ipopt.cpp b/src/core/solvers/ipopt.cpp
index 4b6f4e3..a88b997 100644
--- a/src/core/solvers/ipopt.cpp
+++ b/src/core/solvers/ipopt.cpp
@@ -16,6 +16,8 @@ SolverIpopt::SolverIpopt(std::shared_ptr<crocoddyl::ShootingProblem> problem)
       ipopt_app_(IpoptApplicationFactory()) {
   ipopt_app_->Options()->SetNumericValue("tol", th_stop_);
   ipopt_app_->Options()->SetStringValue("mu_strategy", "adaptive");
+  // by default, Ipopt hands derivatives to its linear solver unchecked
+  ipopt_app_->Options()->SetStringValue("check_derivatives_for_naninf", "yes");
 
   ipopt_status_ = ipopt_app_->Initialize();
 
-- 
2.43.0


From d2e60e2efecebf2495b45ec730f933221f126a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:59 +0000
Subject: [PATCH 42/58] fix: the Ipopt solver did not follow changes of the
 problem

---
 src/core/solvers/ipopt.cpp             | 3 +++
 src/core/solvers/ipopt/ipopt-iface.cpp | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/core/solvers/ipopt.cpp b/src/core/solvers/ipopt.cpp
index a88b997..adf1a10 100644
--- a/src/core/solvers/ipopt.cpp
+++ b/src/core/solvers/ipopt.cpp
@@ -30,6 +30,9 @@ bool SolverIpopt::solve(const std::vector<Eigen::VectorXd>& init_xs,
                         const std::vector<Eigen::VectorXd>& init_us,
                         const std::size_t maxiter, const bool is_feasible,
                         const double /*reg_init*/) {
+  // problem_->is_updated() is consumed by the first solver that asks for it
+  problem_->is_updated();
+  resizeData();
   setCandidate(init_xs, init_us, is_feasible);
   ipopt_iface_->set_xs(xs_);
   ipopt_iface_->set_us(us_);
diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 33797f2..38630af 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -52,9 +52,17 @@ IpoptInterface::IpoptInterface(const std::shared_ptr<ShootingProblem>& problem)
 
 void IpoptInterface::resizeData() {
   const std::size_t T = problem_->get_T();
+  nconst_ = 0;
   nvar_ = 0;
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
+  xs_.resize(T + 1);
+  us_.resize(T);
+  ixu_.resize(T + 1);
+  while (datas_.size() < T + 1) {
+    datas_.push_back(createData(problem_->get_nx(), problem_->get_ndx(), 0));
+  }
+  datas_.resize(T + 1);
   for (std::size_t t = 0; t < T; ++t) {
     const std::size_t nxi = models[t]->get_state()->get_nx();
     const std::size_t ndxi = models[t]->get_state()->get_ndx();
-- 
2.43.0


From 7042eca7fafd094535bb4a3969e0814953864287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:59 +0000
Subject: [PATCH 43/58] fix: the Ipopt solver used missing statistics when
 Ipopt failed before its first iteration

---
 src/core/solvers/ipopt.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/solvers/ipopt.cpp b/src/core/solvers/ipopt.cpp
index adf1a10..a561aeb 100644
--- a/src/core/solvers/ipopt.cpp
+++ b/src/core/solvers/ipopt.cpp
@@ -46,7 +46,10 @@ bool SolverIpopt::solve(const std::vector<Eigen::VectorXd>& init_xs,
   std::copy(ipopt_iface_->get_us().begin(), ipopt_iface_->get_us().end(),
             us_.begin());
   cost_ = ipopt_iface_->get_cost();
-  iter_ = ipopt_app_->Statistics()->IterationCount();
+  // There are no statistics if Ipopt failed before its first iteration
+  iter_ = IsValid(ipopt_app_->Statistics())
+              ? ipopt_app_->Statistics()->IterationCount()
+              : 0;
 
   return ipopt_status_ == Ipopt::Solve_Succeeded ||
          ipopt_status_ == Ipopt::Solved_To_Acceptable_Level;
-- 
2.43.0


From f48710a965d753ad6a75ca031b85b1c766fae9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:59 +0000
Subject: [PATCH 44/58] fix: the Ipopt objective and its final cost started
 from undefined values

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 38630af..ecd54a5 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -13,7 +13,7 @@
 namespace crocoddyl {
 
 IpoptInterface::IpoptInterface(const std::shared_ptr<ShootingProblem>& problem)
-    : problem_(problem) {
+    : problem_(problem), cost_(0.) {
   const std::size_t T = problem_->get_T();
   xs_.resize(T + 1);
   us_.resize(T);
@@ -249,6 +249,8 @@ bool IpoptInterface::eval_f(Ipopt::Index, const Ipopt::Number* x, bool,
   assert_pretty(n == static_cast<Ipopt::Index>(nvar_),
                 "Inconsistent number of decision variables");
 
+  obj_value = 0.;
+
   // Running costs
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-- 
2.43.0


From 398063543198693b7ac13bd93dc3f62b8c7cda38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:59 +0000
Subject: [PATCH 45/58] fix: the Ipopt interface took derivatives without
 evaluating the model at their point

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index ecd54a5..0ff5fff 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -504,6 +504,7 @@ bool IpoptInterface::eval_jac_g(Ipopt::Index, const Ipopt::Number* x, bool,
       model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
       model_next->get_state()->integrate(xs_[t + 1], datas_[t]->dxnext,
                                          datas_[t]->xnext);
+      model->calc(data, datas_[t]->x, datas_[t]->u);
       model->calcDiff(data, datas_[t]->x, datas_[t]->u);
       model_next->get_state()->Jintegrate(
           xs_[t + 1], datas_[t]->dxnext, datas_[t]->Jint_dxnext,
@@ -650,6 +651,7 @@ bool IpoptInterface::eval_h(Ipopt::Index, const Ipopt::Number* x, bool,
       datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
 
       model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
+      model->calc(data, datas_[t]->x, datas_[t]->u);
       model->calcDiff(data, datas_[t]->x,
                       datas_[t]->u);  // this might be removed
       model->get_state()->Jintegrate(xs_[t], datas_[t]->dx, datas_[t]->Jint_dx,
-- 
2.43.0


From 0f79b028efed42dbd71ff16b639bb3930cde2ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:59 +0000
Subject: [PATCH 46/58] fix: the terminal Hessian of the Ipopt interface
 ignored the objective factor

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 0ff5fff..c5a62d8 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -713,7 +713,7 @@ bool IpoptInterface::eval_h(Ipopt::Index, const Ipopt::Number* x, bool,
         if (idx_col > idx_row) {
           break;
         }
-        values[idx] = datas_[T]->Ldxdx(idx_row, idx_col);
+        values[idx] = obj_factor * datas_[T]->Ldxdx(idx_row, idx_col);
         idx++;
       }
     }
-- 
2.43.0


From 8d704c854fb2539ae18ad9babc649e07c4103d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:14 +0000
Subject: [PATCH 47/58] fix: an exception in a parallel section ended the
 process

Exceptions that leave an OpenMP region call std::terminate. The parallel
loops now keep the exception of the first failing iteration and throw it in
the calling thread.
---
 include/crocoddyl/core/optctrl/shooting.hxx   | 22 ++++--
 .../crocoddyl/core/utils/parallel-loop.hpp    | 75 +++++++++++++++++++
 src/core/solver-base.cpp                      |  8 +-
 src/core/solvers/intro.cpp                    | 14 +++-
 src/core/solvers/ipopt/ipopt-iface.cpp        | 37 ++++++---
 5 files changed, 134 insertions(+), 22 deletions(-)
 create mode 100644 include/crocoddyl/core/utils/parallel-loop.hpp

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index ffbfa5a..1b27578 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -7,6 +7,7 @@
 // All rights reserved.
 ///////////////////////////////////////////////////////////////////////////////
 
+#include "crocoddyl/core/utils/parallel-loop.hpp"
 #include "crocoddyl/core/utils/stop-watch.hpp"
 
 namespace crocoddyl {
@@ -167,12 +168,15 @@ Scalar ShootingProblemTpl<Scalar>::calc(const std::vector<VectorXs>& xs,
   }
   START_PROFILER("ShootingProblem::calc");
 
+  ParallelLoop loop;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(nthreads_)
 #endif
-  for (std::size_t i = 0; i < T_; ++i) {
+  for (std::size_t i = 0; i < T_; ++i)
+    loop.run(i, [&]() {
     running_models_[i]->calc(running_datas_[i], xs[i], us[i]);
-  }
+  });
+  loop.rethrow();
   terminal_model_->calc(terminal_data_, xs.back());
 
   cost_ = Scalar(0.);
@@ -202,12 +206,15 @@ Scalar ShootingProblemTpl<Scalar>::calcDiff(const std::vector<VectorXs>& xs,
   }
   START_PROFILER("ShootingProblem::calcDiff");
 
+  ParallelLoop loop;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(nthreads_)
 #endif
-  for (std::size_t i = 0; i < T_; ++i) {
+  for (std::size_t i = 0; i < T_; ++i)
+    loop.run(i, [&]() {
     running_models_[i]->calcDiff(running_datas_[i], xs[i], us[i]);
-  }
+  });
+  loop.rethrow();
   terminal_model_->calcDiff(terminal_data_, xs.back());
 
   cost_ = Scalar(0.);
@@ -279,12 +286,15 @@ void ShootingProblemTpl<Scalar>::quasiStatic(std::vector<VectorXs>& us,
                                     std::to_string(T_) + ")");
   }
 
+  ParallelLoop loop;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(nthreads_)
 #endif
-  for (std::size_t i = 0; i < T_; ++i) {
+  for (std::size_t i = 0; i < T_; ++i)
+    loop.run(i, [&]() {
     running_models_[i]->quasiStatic(running_datas_[i], us[i], xs[i]);
-  }
+  });
+  loop.rethrow();
 }
 
 template <typename Scalar>
diff --git a/include/crocoddyl/core/utils/parallel-loop.hpp b/include/crocoddyl/core/utils/parallel-loop.hpp
new file mode 100644
index 0000000..4d4e001
--- /dev/null
+++ b/include/crocoddyl/core/utils/parallel-loop.hpp
@@ -0,0 +1,75 @@
+///////////////////////////////////////////////////////////////////////////////
+// BSD 3-Clause License
+//
+// Copyright (C) 2026, Heriot-Watt University
+// Copyright note valid unless otherwise stated in individual files.
+// All rights reserved.
+///////////////////////////////////////////////////////////////////////////////
+
+#ifndef CROCODDYL_CORE_UTILS_PARALLEL_LOOP_HPP_
+#define CROCODDYL_CORE_UTILS_PARALLEL_LOOP_HPP_
+
+#include <cstddef>
+#ifdef CROCODDYL_WITH_MULTITHREADING
+#include <exception>
+#include <mutex>
+#endif
+
+namespace crocoddyl {
+
+/**
+ * @brief Runs the iterations of a loop that may be shared by many threads
+ *
+ * An exception that leaves an OpenMP region ends the process. This class keeps
+ * the exception of the first failing iteration (the one with the lowest index,
+ * whatever the order in which the threads run) until the calling thread asks
+ * for it. Without multi-threading, exceptions leave the loop immediately.
+ */
+class ParallelLoop {
+ public:
+#ifdef CROCODDYL_WITH_MULTITHREADING
+  ParallelLoop() : index_(0) {}
+
+  /**
+   * @brief Run the iteration `i`, keeping its exception
+   */
+  template <typename Function>
+  void run(const std::size_t i, const Function& iteration) {
+    try {
+      iteration();
+    } catch (...) {
+      std::lock_guard<std::mutex> lock(mutex_);
+      if (!exception_ || i < index_) {
+        exception_ = std::current_exception();
+        index_ = i;
+      }
+    }
+  }
+
+  /**
+   * @brief Throw the exception kept by `run`, if any. To be called after the
+   * loop
+   */
+  void rethrow() const {
+    if (exception_) {
+      std::rethrow_exception(exception_);
+    }
+  }
+
+ private:
+  std::mutex mutex_;
+  std::exception_ptr exception_;
+  std::size_t index_;
+#else
+  template <typename Function>
+  void run(const std::size_t, const Function& iteration) {
+    iteration();
+  }
+
+  void rethrow() const {}
+#endif
+};
+
+}  // namespace crocoddyl
+
+#endif  // CROCODDYL_CORE_UTILS_PARALLEL_LOOP_HPP_
diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 6f86d56..5140494 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -12,6 +12,7 @@
 #endif  // CROCODDYL_WITH_MULTITHREADING
 
 #include "crocoddyl/core/solver-base.hpp"
+#include "crocoddyl/core/utils/parallel-loop.hpp"
 
 namespace crocoddyl {
 
@@ -105,14 +106,17 @@ double SolverAbstract::computeDynamicFeasibility() {
       problem_->get_runningDatas();
 
   models[0]->get_state()->diff(xs_[0], x0, fs_[0]);
+  ParallelLoop loop;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif
-  for (std::size_t t = 0; t < T; ++t) {
+  for (std::size_t t = 0; t < T; ++t)
+    loop.run(t, [&]() {
     const std::shared_ptr<ActionModelAbstract>& m = models[t];
     const std::shared_ptr<ActionDataAbstract>& d = datas[t];
     m->get_state()->diff(xs_[t + 1], d->xnext, fs_[t + 1]);
-  }
+  });
+  loop.rethrow();
   switch (feasnorm_) {
     case LInf:
       tmp_feas_ = std::max(tmp_feas_, fs_[0].lpNorm<Eigen::Infinity>());
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index 61651ce..0505fa4 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -8,6 +8,7 @@
 
 #include "crocoddyl/core/solvers/intro.hpp"
 
+#include "crocoddyl/core/utils/parallel-loop.hpp"
 #include "crocoddyl/core/utils/stop-watch.hpp"
 
 namespace crocoddyl {
@@ -256,12 +257,14 @@ double SolverIntro::calcDiff() {
       problem_->get_runningModels();
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
+  ParallelLoop loop;
   switch (eq_solver_) {
     case LuNull:
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif
-      for (std::size_t t = 0; t < T; ++t) {
+      for (std::size_t t = 0; t < T; ++t)
+        loop.run(t, [&]() {
         const std::shared_ptr<crocoddyl::ActionModelAbstract>& model =
             models[t];
         const std::shared_ptr<crocoddyl::ActionDataAbstract>& data = datas[t];
@@ -283,13 +286,15 @@ double SolverIntro::calcDiff() {
           kz_[t].noalias() = Y * ks_[t];
           Kz_[t].noalias() = Y * Ks_[t];
         }
-      }
+      });
+      loop.rethrow();
       break;
     case QrNull:
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif
-      for (std::size_t t = 0; t < T; ++t) {
+      for (std::size_t t = 0; t < T; ++t)
+        loop.run(t, [&]() {
         const std::shared_ptr<crocoddyl::ActionModelAbstract>& model =
             models[t];
         const std::shared_ptr<crocoddyl::ActionDataAbstract>& data = datas[t];
@@ -309,7 +314,8 @@ double SolverIntro::calcDiff() {
           kz_[t].noalias() = Y * ks_[t];
           Kz_[t].noalias() = Y * Ks_[t];
         }
-      }
+      });
+      loop.rethrow();
       break;
     case Schur:
       for (std::size_t t = 0; t < T; ++t) {
diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index c5a62d8..85a696f 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -10,6 +10,8 @@
 
 #include <cmath>
 
+#include "crocoddyl/core/utils/parallel-loop.hpp"
+
 namespace crocoddyl {
 
 IpoptInterface::IpoptInterface(const std::shared_ptr<ShootingProblem>& problem)
@@ -257,10 +259,12 @@ bool IpoptInterface::eval_f(Ipopt::Index, const Ipopt::Number* x, bool,
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
   const std::size_t T = problem_->get_T();
+  ParallelLoop loop;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif
-  for (std::size_t t = 0; t < T; ++t) {
+  for (std::size_t t = 0; t < T; ++t)
+    loop.run(t, [&]() {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::shared_ptr<ActionDataAbstract>& data = datas[t];
     const std::size_t ndxi = model->get_state()->get_ndx();
@@ -270,7 +274,8 @@ bool IpoptInterface::eval_f(Ipopt::Index, const Ipopt::Number* x, bool,
     datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
     model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
     model->calc(data, datas_[t]->x, datas_[t]->u);
-  }
+  });
+  loop.rethrow();
 
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp simd reduction(+ : obj_value)
@@ -310,10 +315,12 @@ bool IpoptInterface::eval_grad_f(Ipopt::Index, const Ipopt::Number* x, bool,
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
   const std::size_t T = problem_->get_T();
+  ParallelLoop loop;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif
-  for (std::size_t t = 0; t < T; ++t) {
+  for (std::size_t t = 0; t < T; ++t)
+    loop.run(t, [&]() {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::shared_ptr<ActionDataAbstract>& data = datas[t];
     const std::size_t ndxi = model->get_state()->get_ndx();
@@ -327,7 +334,8 @@ bool IpoptInterface::eval_grad_f(Ipopt::Index, const Ipopt::Number* x, bool,
     model->calc(data, datas_[t]->x, datas_[t]->u);
     model->calcDiff(data, datas_[t]->x, datas_[t]->u);
     datas_[t]->Ldx.noalias() = datas_[t]->Jint_dx.transpose() * data->Lx;
-  }
+  });
+  loop.rethrow();
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::shared_ptr<ActionDataAbstract>& data = datas[t];
@@ -380,10 +388,12 @@ bool IpoptInterface::eval_g(Ipopt::Index, const Ipopt::Number* x,
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
   const std::size_t T = problem_->get_T();
+  ParallelLoop loop;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif
-  for (std::size_t t = 0; t < T; ++t) {
+  for (std::size_t t = 0; t < T; ++t)
+    loop.run(t, [&]() {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::shared_ptr<ActionDataAbstract>& data = datas[t];
     const std::size_t ndxi = model->get_state()->get_ndx();
@@ -401,7 +411,8 @@ bool IpoptInterface::eval_g(Ipopt::Index, const Ipopt::Number* x,
                                        datas_[t]->xnext);
     model->calc(data, datas_[t]->x, datas_[t]->u);
     model->get_state()->diff(data->xnext, datas_[t]->xnext, datas_[t]->x_diff);
-  }
+  });
+  loop.rethrow();
 
   std::size_t ix = 0;
   for (std::size_t t = 0; t < T; ++t) {
@@ -485,10 +496,12 @@ bool IpoptInterface::eval_jac_g(Ipopt::Index, const Ipopt::Number* x, bool,
         problem_->get_runningDatas();
     // Dynamic constraints
     const std::size_t T = problem_->get_T();
+    ParallelLoop loop;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif
-    for (std::size_t t = 0; t < T; ++t) {
+    for (std::size_t t = 0; t < T; ++t)
+      loop.run(t, [&]() {
       const std::shared_ptr<ActionModelAbstract>& model = models[t];
       const std::shared_ptr<ActionDataAbstract>& data = datas[t];
       const std::shared_ptr<ActionModelAbstract>& model_next =
@@ -522,7 +535,8 @@ bool IpoptInterface::eval_jac_g(Ipopt::Index, const Ipopt::Number* x, bool,
       datas_[t]->FxJint_dx.noalias() = data->Fx * datas_[t]->Jint_dx;
       datas_[t]->Jg_dx.noalias() = datas_[t]->Jdiff_x * datas_[t]->FxJint_dx;
       datas_[t]->Jg_u.noalias() = datas_[t]->Jdiff_x * data->Fu;
-    }
+    });
+    loop.rethrow();
     std::size_t idx = 0;
     for (std::size_t t = 0; t < T; ++t) {
       const std::shared_ptr<ActionModelAbstract>& model = models[t];
@@ -639,10 +653,12 @@ bool IpoptInterface::eval_h(Ipopt::Index, const Ipopt::Number* x, bool,
     // Running Costs
     const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
         problem_->get_runningDatas();
+    ParallelLoop loop;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif
-    for (std::size_t t = 0; t < T; ++t) {
+    for (std::size_t t = 0; t < T; ++t)
+      loop.run(t, [&]() {
       const std::shared_ptr<ActionModelAbstract>& model = models[t];
       const std::shared_ptr<ActionDataAbstract>& data = datas[t];
       const std::size_t ndxi = model->get_state()->get_ndx();
@@ -659,7 +675,8 @@ bool IpoptInterface::eval_h(Ipopt::Index, const Ipopt::Number* x, bool,
       datas_[t]->Ldxdx.noalias() =
           datas_[t]->Jint_dx.transpose() * data->Lxx * datas_[t]->Jint_dx;
       datas_[t]->Ldxu.noalias() = datas_[t]->Jint_dx.transpose() * data->Lxu;
-    }
+    });
+    loop.rethrow();
 
     std::size_t idx = 0;
     for (std::size_t t = 0; t < T; ++t) {
-- 
2.43.0


From debd218abef61719d0a928c14a4c253c562c2acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:58 +0000
Subject: [PATCH 48/58] fix: the DDP forward pass accepted next states with NaN
 coefficients dropped by the infinity norm

---
 src/core/solvers/ddp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index c88a4cb..ee6adff 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -290,7 +290,7 @@ void SolverDDP::forwardPass(const double steplength) {
       STOP_PROFILER("SolverDDP::forwardPass");
       throw_pretty("forward_error");
     }
-    if (raiseIfNaN(xs_try_[t + 1].lpNorm<Eigen::Infinity>())) {
+    if (raiseIfNaN(xs_try_[t + 1])) {
       STOP_PROFILER("SolverDDP::forwardPass");
       throw_pretty("forward_error");
     }
-- 
2.43.0


From 66321d028ce56c8ac1a2b96bba1b0f7e216ea7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:32 +0000
Subject: [PATCH 49/58] fix: solver buffers had mixed sizes after running out
 of memory in resizeData

resizeData took the size of us_ (us_try_) for the size of all the buffers, but
it was set before the others were allocated. When that failed, the next solve
used buffers of another horizon.
---
 src/core/solver-base.cpp      | 8 +++++---
 src/core/solvers/box-ddp.cpp  | 3 +--
 src/core/solvers/box-fddp.cpp | 3 +--
 src/core/solvers/ddp.cpp      | 8 ++++++--
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 5140494..4b10ae1 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -77,12 +77,14 @@ void SolverAbstract::resizeData() {
   const std::size_t ng_T = problem_->get_terminalModel()->get_ng_T();
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-  if (us_.size() != T) {
+  if (xs_.size() != T + 1) {
     xs_.resize(T + 1, problem_->get_terminalModel()->get_state()->zero());
-    us_.resize(T);
+  }
+  if (fs_.size() != T + 1) {
     fs_.resize(T + 1, Eigen::VectorXd::Zero(problem_->get_ndx()));
-    g_adj_.resize(T + 1);
   }
+  us_.resize(T);
+  g_adj_.resize(T + 1);
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::size_t nu = model->get_nu();
diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index f0b5b0a..f90e42c 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -47,8 +47,6 @@ void SolverBoxDDP::resizeData() {
 }
 
 void SolverBoxDDP::allocateData() {
-  SolverDDP::allocateData();
-
   const std::size_t T = problem_->get_T();
   Quu_inv_.resize(T);
   du_lb_.resize(T);
@@ -62,6 +60,7 @@ void SolverBoxDDP::allocateData() {
     du_lb_[t] = Eigen::VectorXd::Zero(nu);
     du_ub_[t] = Eigen::VectorXd::Zero(nu);
   }
+  SolverDDP::allocateData();
 }
 
 void SolverBoxDDP::computeGains(const std::size_t t) {
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index f1108fd..7236f27 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -47,8 +47,6 @@ void SolverBoxFDDP::resizeData() {
 }
 
 void SolverBoxFDDP::allocateData() {
-  SolverFDDP::allocateData();
-
   const std::size_t T = problem_->get_T();
   Quu_inv_.resize(T);
   du_lb_.resize(T);
@@ -62,6 +60,7 @@ void SolverBoxFDDP::allocateData() {
     du_lb_[t] = Eigen::VectorXd::Zero(nu);
     du_ub_[t] = Eigen::VectorXd::Zero(nu);
   }
+  SolverFDDP::allocateData();
 }
 
 void SolverBoxFDDP::computeGains(const std::size_t t) {
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index ee6adff..1d4521a 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -423,6 +423,10 @@ void SolverDDP::decreaseRegularization() {
 
 void SolverDDP::allocateData() {
   const std::size_t T = problem_->get_T();
+  // The size of us_try_ tells resizeData that all the buffers have been
+  // allocated, so it is the last one to be set
+  us_try_.clear();
+  std::vector<Eigen::VectorXd> us_try(T);
   Vxx_.resize(T + 1);
   Vx_.resize(T + 1);
   Qxx_.resize(T);
@@ -434,7 +438,6 @@ void SolverDDP::allocateData() {
   k_.resize(T);
 
   xs_try_.resize(T + 1);
-  us_try_.resize(T);
   dx_.resize(T);
 
   FuTVxx_p_.resize(T);
@@ -462,7 +465,7 @@ void SolverDDP::allocateData() {
     } else {
       xs_try_[t] = model->get_state()->zero();
     }
-    us_try_[t] = Eigen::VectorXd::Zero(nu);
+    us_try[t] = Eigen::VectorXd::Zero(nu);
     dx_[t] = Eigen::VectorXd::Zero(ndx);
 
     FuTVxx_p_[t] = MatrixXdRowMajor::Zero(nu, ndx);
@@ -476,6 +479,7 @@ void SolverDDP::allocateData() {
 
   FxTVxx_p_ = MatrixXdRowMajor::Zero(ndx, ndx);
   fTVxx_p_ = Eigen::VectorXd::Zero(ndx);
+  us_try_.swap(us_try);
 }
 
 double SolverDDP::get_reg_incfactor() const { return reg_incfactor_; }
-- 
2.43.0


From e4f68e907d0a90e1d7ca5baca9ff26394dc498c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 50/58] fix: copies and casts of the LQR models lost their
 limits and bounds

---
 include/crocoddyl/core/actions/diff-lqr.hxx | 12 ++++++++++++
 include/crocoddyl/core/actions/lqr.hxx      | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index dbb7101..ce15e2e 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -82,6 +82,12 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
   set_LQR(copy.get_Aq(), copy.get_Av(), copy.get_B(), copy.get_Q(),
           copy.get_R(), copy.get_N(), copy.get_G(), copy.get_H(), copy.get_f(),
           copy.get_q(), copy.get_r(), copy.get_g(), copy.get_h());
+  this->set_u_lb(copy.get_u_lb());
+  this->set_u_ub(copy.get_u_ub());
+  this->set_g_lb(copy.get_g_lb());
+  this->set_g_ub(copy.get_g_ub());
+  state_->set_lb(copy.get_state()->get_lb());
+  state_->set_ub(copy.get_state()->get_ub());
 }
 
 template <typename Scalar>
@@ -226,6 +232,12 @@ DifferentialActionModelLQRTpl<Scalar>::cast() const {
                  f_.template cast<NewScalar>(), q_.template cast<NewScalar>(),
                  r_.template cast<NewScalar>(), g_.template cast<NewScalar>(),
                  h_.template cast<NewScalar>());
+  ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
+  ret.set_g_lb(this->g_lb_.template cast<NewScalar>());
+  ret.set_g_ub(this->g_ub_.template cast<NewScalar>());
+  ret.get_state()->set_lb(state_->get_lb().template cast<NewScalar>());
+  ret.get_state()->set_ub(state_->get_ub().template cast<NewScalar>());
   return ret;
 }
 
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index c8bcba7..308a94b 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -81,6 +81,12 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const ActionModelLQRTpl& copy)
   set_LQR(copy.get_A(), copy.get_B(), copy.get_Q(), copy.get_R(), copy.get_N(),
           copy.get_G(), copy.get_H(), copy.get_f(), copy.get_q(), copy.get_r(),
           copy.get_g(), copy.get_h());
+  this->set_u_lb(copy.get_u_lb());
+  this->set_u_ub(copy.get_u_ub());
+  this->set_g_lb(copy.get_g_lb());
+  this->set_g_ub(copy.get_g_ub());
+  state_->set_lb(copy.get_state()->get_lb());
+  state_->set_ub(copy.get_state()->get_ub());
 }
 
 template <typename Scalar>
@@ -217,6 +223,12 @@ ActionModelLQRTpl<NewScalar> ActionModelLQRTpl<Scalar>::cast() const {
                  H_.template cast<NewScalar>(), f_.template cast<NewScalar>(),
                  q_.template cast<NewScalar>(), r_.template cast<NewScalar>(),
                  g_.template cast<NewScalar>(), h_.template cast<NewScalar>());
+  ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
+  ret.set_g_lb(this->g_lb_.template cast<NewScalar>());
+  ret.set_g_ub(this->g_ub_.template cast<NewScalar>());
+  ret.get_state()->set_lb(state_->get_lb().template cast<NewScalar>());
+  ret.get_state()->set_ub(state_->get_ub().template cast<NewScalar>());
   return ret;
 }
 
-- 
2.43.0


From 09372c0ee21e42224e4a59fbf6541b9b32adec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 51/58] fix: the cast of the unicycle model was a default model

---
 include/crocoddyl/core/actions/unicycle.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/crocoddyl/core/actions/unicycle.hxx b/include/crocoddyl/core/actions/unicycle.hxx
index afa0add..206f265 100644
--- a/include/crocoddyl/core/actions/unicycle.hxx
+++ b/include/crocoddyl/core/actions/unicycle.hxx
@@ -115,6 +115,12 @@ template <typename NewScalar>
 ActionModelUnicycleTpl<NewScalar> ActionModelUnicycleTpl<Scalar>::cast() const {
   typedef ActionModelUnicycleTpl<NewScalar> ReturnType;
   ReturnType ret;
+  ret.set_dt(scalar_cast<NewScalar>(dt_));
+  ret.set_cost_weights(cost_weights_.template cast<NewScalar>());
+  ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
+  ret.get_state()->set_lb(state_->get_lb().template cast<NewScalar>());
+  ret.get_state()->set_ub(state_->get_ub().template cast<NewScalar>());
   return ret;
 }
 
-- 
2.43.0


From 051dca6ca1cffe75164458a9b7b500aeab043918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 52/58] fix: casts of the integrated models lost control limits
 set on them

---
 include/crocoddyl/core/integrator/euler.hxx | 4 ++++
 include/crocoddyl/core/integrator/rk.hxx    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/crocoddyl/core/integrator/euler.hxx b/include/crocoddyl/core/integrator/euler.hxx
index fd538f0..7e0faeb 100644
--- a/include/crocoddyl/core/integrator/euler.hxx
+++ b/include/crocoddyl/core/integrator/euler.hxx
@@ -165,10 +165,14 @@ IntegratedActionModelEulerTpl<Scalar>::cast() const {
     ReturnType ret(differential_->template cast<NewScalar>(),
                    control_->template cast<NewScalar>(),
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   } else {
     ReturnType ret(differential_->template cast<NewScalar>(),
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   }
 }
diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 45625fa..d7f5728 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -345,10 +345,14 @@ IntegratedActionModelRKTpl<NewScalar> IntegratedActionModelRKTpl<Scalar>::cast()
     ReturnType ret(differential_->template cast<NewScalar>(),
                    control_->template cast<NewScalar>(), rk_type_,
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   } else {
     ReturnType ret(differential_->template cast<NewScalar>(), rk_type_,
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   }
 }
-- 
2.43.0


From 4ac00d67e9ea7d48939cf956af0b20bb3bfd48e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 53/58] fix: casts of the numdiff actions lost the Gauss
 approximation and the limits

---
 include/crocoddyl/core/numdiff/action.hxx      | 4 +++-
 include/crocoddyl/core/numdiff/diff-action.hxx | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index 4896a91..d9149aa 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -336,7 +336,9 @@ template <typename Scalar>
 template <typename NewScalar>
 ActionModelNumDiffTpl<NewScalar> ActionModelNumDiffTpl<Scalar>::cast() const {
   typedef ActionModelNumDiffTpl<NewScalar> ReturnType;
-  ReturnType res(model_->template cast<NewScalar>());
+  ReturnType res(model_->template cast<NewScalar>(), with_gauss_approx_);
+  res.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  res.set_u_ub(this->u_ub_.template cast<NewScalar>());
   return res;
 }
 
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index 9a8f3ce..bab4282 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -329,7 +329,9 @@ template <typename NewScalar>
 DifferentialActionModelNumDiffTpl<NewScalar>
 DifferentialActionModelNumDiffTpl<Scalar>::cast() const {
   typedef DifferentialActionModelNumDiffTpl<NewScalar> ReturnType;
-  ReturnType res(model_->template cast<NewScalar>());
+  ReturnType res(model_->template cast<NewScalar>(), with_gauss_approx_);
+  res.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  res.set_u_ub(this->u_ub_.template cast<NewScalar>());
   return res;
 }
 
-- 
2.43.0


From 8994731da6dde745465ab8c2f5f5ccb7925ea268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 54/58] fix: casts of the vector and numdiff states lost their
 bounds

---
 include/crocoddyl/core/numdiff/state.hxx    | 2 ++
 include/crocoddyl/core/states/euclidean.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/state.hxx b/include/crocoddyl/core/numdiff/state.hxx
index b72e785..3b793d1 100644
--- a/include/crocoddyl/core/numdiff/state.hxx
+++ b/include/crocoddyl/core/numdiff/state.hxx
@@ -210,6 +210,8 @@ template <typename NewScalar>
 StateNumDiffTpl<NewScalar> StateNumDiffTpl<Scalar>::cast() const {
   typedef StateNumDiffTpl<NewScalar> ReturnType;
   ReturnType res(state_->template cast<NewScalar>());
+  res.set_lb(this->lb_.template cast<NewScalar>());
+  res.set_ub(this->ub_.template cast<NewScalar>());
   return res;
 }
 
diff --git a/include/crocoddyl/core/states/euclidean.hxx b/include/crocoddyl/core/states/euclidean.hxx
index b1ca3e7..96857a5 100644
--- a/include/crocoddyl/core/states/euclidean.hxx
+++ b/include/crocoddyl/core/states/euclidean.hxx
@@ -182,6 +182,8 @@ template <typename NewScalar>
 StateVectorTpl<NewScalar> StateVectorTpl<Scalar>::cast() const {
   typedef StateVectorTpl<NewScalar> ReturnType;
   ReturnType res(nx_);
+  res.set_lb(this->lb_.template cast<NewScalar>());
+  res.set_ub(this->ub_.template cast<NewScalar>());
   return res;
 }
 
-- 
2.43.0


From 5c060703bb3f8e0d84e7fe394c15e11830501203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 55/58] fix: the cast of the smooth saturation lost its
 smoothness and input bounds

---
 include/crocoddyl/core/actuation/squashing/smooth-sat.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
index 900d915..6277985 100644
--- a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
+++ b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
@@ -75,6 +75,9 @@ class SquashingModelSmoothSatTpl : public SquashingModelAbstractTpl<_Scalar> {
     typedef SquashingModelSmoothSatTpl<NewScalar> ReturnType;
     ReturnType ret(u_lb_.template cast<NewScalar>(),
                    u_ub_.template cast<NewScalar>(), ns_);
+    ret.set_smooth(scalar_cast<NewScalar>(smooth_));
+    ret.set_s_lb(s_lb_.template cast<NewScalar>());
+    ret.set_s_ub(s_ub_.template cast<NewScalar>());
     return ret;
   }
 
-- 
2.43.0


From cd732aa516b62d2ef8dc808c3b5bae92b45e33f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 56/58] fix: the cast of activation bounds scaled them by beta
 again and broke one-sided bounds

---
 .../core/activations/quadratic-barrier.hpp       | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/activations/quadratic-barrier.hpp b/include/crocoddyl/core/activations/quadratic-barrier.hpp
index feec6f6..b25196d 100644
--- a/include/crocoddyl/core/activations/quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/quadratic-barrier.hpp
@@ -77,8 +77,20 @@ struct ActivationBoundsTpl {
   template <typename NewScalar>
   ActivationBoundsTpl<NewScalar> cast() const {
     typedef ActivationBoundsTpl<NewScalar> ReturnType;
-    ReturnType res(lb.template cast<NewScalar>(), ub.template cast<NewScalar>(),
-                   scalar_cast<NewScalar>(beta));
+    // the bounds are already scaled by beta, and the maximum value of each type
+    // stands for an infinite bound
+    ReturnType res;
+    res.lb = lb.template cast<NewScalar>();
+    res.ub = ub.template cast<NewScalar>();
+    for (Eigen::Index i = 0; i < lb.size(); ++i) {
+      if (lb(i) == -std::numeric_limits<Scalar>::max()) {
+        res.lb(i) = -std::numeric_limits<NewScalar>::max();
+      }
+      if (ub(i) == std::numeric_limits<Scalar>::max()) {
+        res.ub(i) = std::numeric_limits<NewScalar>::max();
+      }
+    }
+    res.beta = scalar_cast<NewScalar>(beta);
     return res;
   }
 
-- 
2.43.0


From 682275c724ad2cf2cf155af35ad1e9aba6a8034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 57/58] fix: an inequality constraint cast without its bounds
 could never get them back

---
 include/crocoddyl/core/constraints/residual.hxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/crocoddyl/core/constraints/residual.hxx b/include/crocoddyl/core/constraints/residual.hxx
index a5574c4..6c95219 100644
--- a/include/crocoddyl/core/constraints/residual.hxx
+++ b/include/crocoddyl/core/constraints/residual.hxx
@@ -174,6 +174,14 @@ ConstraintModelResidualTpl<NewScalar> ConstraintModelResidualTpl<Scalar>::cast()
                    lb_.template cast<NewScalar>(),
                    ub_.template cast<NewScalar>(), T_constraint_);
     return ret;
+  } else if (lb_.size() != 0) {
+    // an inequality constraint whose bounds have been removed
+    ReturnType ret(state_->template cast<NewScalar>(),
+                   residual_->template cast<NewScalar>(),
+                   lb_.template cast<NewScalar>(),
+                   ub_.template cast<NewScalar>(), T_constraint_);
+    ret.remove_bounds();
+    return ret;
   } else {
     ReturnType ret(state_->template cast<NewScalar>(),
                    residual_->template cast<NewScalar>(), T_constraint_);
-- 
2.43.0


From 52a28934dab0a20895852a27979fd3e79b7685fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:47 +0000
Subject: [PATCH 58/58] fix: the merit and the decreases of a rejected first
 step were those of an earlier solve

---
 src/core/solvers/ddp.cpp   | 2 ++
 src/core/solvers/fddp.cpp  | 2 ++
 src/core/solvers/intro.cpp | 5 +++++
 src/core/solvers/kkt.cpp   | 2 ++
 4 files changed, 11 insertions(+)

diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index 1d4521a..62a2316 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -61,6 +61,8 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     dreg_ = init_reg;
   }
   was_feasible_ = false;
+  dV_ = 0.;
+  dVexp_ = 0.;
 
   bool recalcDiff = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index 390aa70..63b77d2 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -41,6 +41,8 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     dreg_ = init_reg;
   }
   was_feasible_ = false;
+  dV_ = 0.;
+  dVexp_ = 0.;
 
   bool recalcDiff = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index 0505fa4..9e3a6f9 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -93,6 +93,11 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
   }
   was_feasible_ = false;
   dV_ = 0.;
+  dVexp_ = 0.;
+  dPhi_ = 0.;
+  dPhiexp_ = 0.;
+  dfeas_ = 0.;
+  merit_ = 0.;
   if (zero_upsilon_) {
     upsilon_ = 0.;
   }
diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index d8c3529..b84b377 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -42,6 +42,8 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
   problem_->is_updated();
   resizeData();
   was_feasible_ = false;
+  dV_ = 0.;
+  dVexp_ = 0.;
   setCandidate(init_xs, init_us, is_feasible);
   bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
-- 
2.43.0

