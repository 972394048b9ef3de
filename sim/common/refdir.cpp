#include "common/refdir.hpp"

#include <Eigen/Dense>
#include <cmath>

namespace sim {
std::vector<VectorXd> gaps(const cr::ShootingProblem& p, const std::vector<VectorXd>& xs) {
  std::vector<VectorXd> fs;
  const auto& ms = p.get_runningModels();
  VectorXd f((Eigen::Index)p.get_ndx());
  ms[0]->get_state()->diff(xs[0], p.get_x0(), f);
  fs.push_back(f);
  for (size_t t = 0; t < ms.size(); t++) {
    ms[t]->get_state()->diff(xs[t + 1], p.get_runningDatas()[t]->xnext, f);
    fs.push_back(f);
  }
  return fs;
}
bool ref_boxqp(const MatrixXd& H, const VectorXd& q, const VectorXd& lb, const VectorXd& ub, VectorXd* x, std::vector<int>* act, double* margin) {
  const int n = (int)q.size();
  int total = 1;
  for (int i = 0; i < n; i++) total *= 3;
  const double sc = 1 + q.lpNorm<Eigen::Infinity>();
  double best = -1;
  for (int c = 0; c < total; c++) {
    std::vector<int> a(n), fr;
    int v = c;
    bool bad = false;
    VectorXd y = VectorXd::Zero(n);
    for (int i = 0; i < n; i++) {
      a[i] = v % 3;
      v /= 3;
      if (a[i] == 0) fr.push_back(i);
      else {
        y[i] = a[i] == 1 ? lb[i] : ub[i];
        if (!std::isfinite(y[i])) bad = true;
      }
    }
    if (bad) continue;
    const int nf = (int)fr.size();
    if (nf) {
      MatL Hf(nf, nf);
      VecL r(nf);
      for (int i = 0; i < nf; i++) {
        ld s = -(ld)q[fr[i]];
        for (int j = 0; j < n; j++) if (a[j]) s -= (ld)H(fr[i], j) * (ld)y[j];
        r[i] = s;
        for (int j = 0; j < nf; j++) Hf(i, j) = H(fr[i], fr[j]);
      }
      VecL s = Hf.ldlt().solve(r);
      for (int i = 0; i < nf; i++) y[fr[i]] = (double)s[i];
    }
    if (!y.allFinite()) continue;
    VectorXd g = q + H * y;
    double m = 1e300;
    for (int i = 0; i < n; i++) {
      if (a[i] == 0) m = std::min(m, std::min(y[i] - lb[i], ub[i] - y[i]));
      else m = std::min(m, (a[i] == 1 ? g[i] : -g[i]) / sc);
      if (lb[i] == ub[i] && a[i] == 1) m = std::min(m, 0.);
    }
    if (m >= 0 && m > best) { best = m; *x = y; *act = a; }
  }
  if (margin) *margin = best;
  return best >= 0;
}
bool boxqp_stuck(const MatrixXd& H, const VectorXd& q, const VectorXd& lb, const VectorXd& ub, VectorXd x0, const VectorXd& opt) {
  const Eigen::Index n = q.size();
  for (int sign = 0; sign < 2; sign++) {
    VectorXd x = x0;
    for (int it = 0; it < 200; it++) {
      VectorXd g = q + H * x, dx = VectorXd::Zero(n);
      std::vector<Eigen::Index> fr;
      for (Eigen::Index i = 0; i < n; i++)
        if (!((x[i] == lb[i] && g[i] > 0) || (x[i] == ub[i] && g[i] < 0))) fr.push_back(i);
      const Eigen::Index nf = (Eigen::Index)fr.size();
      MatrixXd Hf(nf, nf);
      VectorXd r(nf);
      for (Eigen::Index i = 0; i < nf; i++) {
        r[i] = -g[fr[(size_t)i]];
        for (Eigen::Index j = 0; j < nf; j++) Hf(i, j) = H(fr[(size_t)i], fr[(size_t)j]);
      }
      if (nf) r = Hf.ldlt().solve(r).eval();
      for (Eigen::Index i = 0; i < nf; i++) dx[fr[(size_t)i]] = r[i];
      const double f0 = 0.5 * x.dot(H * x) + q.dot(x);
      for (int a = 0; a < 10; a++) {
        VectorXd y = (x + dx / (double)(1 << a)).cwiseMin(ub).cwiseMax(lb);
        VectorXd gs = g;
        if (sign) for (auto i : fr) gs[i] = -g[i];
        if (f0 - (0.5 * y.dot(H * y) + q.dot(y)) > 0.1 * gs.dot(x - y)) { x = y; break; }
      }
    }
    if (!((x - opt).lpNorm<Eigen::Infinity>() < 1e-3 * (1 + opt.lpNorm<Eigen::Infinity>()))) return true;
  }
  return false;
}
RefDir ref_direction(const cr::ShootingProblem& p, const RefIn& in) {
  RefDir o;
  const auto& ms = p.get_runningModels();
  const auto& ds = p.get_runningDatas();
  const size_t T = ms.size();
  const ld reg = std::isnan(in.preg) ? 0 : in.preg;
  std::vector<VectorXd> f = gaps(p, in.xs);
  for (auto& v : f) o.fs.push_back(v.cast<ld>());
  o.Vx.resize(T + 1);
  o.Vxx.resize(T + 1);
  o.k.resize(T);
  o.K.resize(T);
  o.Quu.resize(T);
  o.Qu.resize(T);
  o.ok = true;
  ld d0 = 0, d1 = 0, sc = 0;
  o.Vxx[T] = p.get_terminalData()->Lxx.cast<ld>();
  o.Vxx[T].diagonal().array() += reg;
  o.Vx[T] = p.get_terminalData()->Lx.cast<ld>();
  if (!in.feasible) o.Vx[T] += o.Vxx[T] * o.fs[T];
  for (size_t i = T; i-- > 0;) {
    const cr::ActionDataAbstract& d = *ds[i];
    const cr::ActionModelAbstract& m = *ms[i];
    const Eigen::Index nu = (Eigen::Index)m.get_nu(), n = (Eigen::Index)p.get_ndx();
    const Eigen::Index nh = in.equality && nu ? (Eigen::Index)m.get_nh() : 0;
    MatL Fx = d.Fx.cast<ld>(), Fu = d.Fu.cast<ld>();
    VecL Qx = d.Lx.cast<ld>() + Fx.transpose() * o.Vx[i + 1];
    MatL Qxx = d.Lxx.cast<ld>() + Fx.transpose() * o.Vxx[i + 1] * Fx;
    VecL k(nu);
    MatL K(nu, n);
    VecL Vx = Qx;
    MatL Vxx = Qxx;
    if (nu) {
      VecL Qu = d.Lu.cast<ld>() + Fu.transpose() * o.Vx[i + 1];
      MatL Quu = d.Luu.cast<ld>() + Fu.transpose() * o.Vxx[i + 1] * Fu;
      MatL Qxu = d.Lxu.cast<ld>() + Fx.transpose() * o.Vxx[i + 1] * Fu;
      Quu.diagonal().array() += reg;
      o.Quu[i] = Quu;
      o.Qu[i] = Qu;
      Eigen::SelfAdjointEigenSolver<MatL> es(Quu);
      const ld lo = es.eigenvalues().minCoeff(), hi = es.eigenvalues().maxCoeff();
      if (!(lo > 0) || !(hi / lo < 1e7)) o.ok = false;
      if (!o.ok) return o;
      VecL Qd = Qu;  // what enters d0
      if (in.box && in.feasible && m.get_has_control_limits()) {
        VectorXd lb = m.get_u_lb() - in.us[i], ub = m.get_u_ub() - in.us[i], x;
        std::vector<int> a;
        double mg = 0;
        if (nu > 4 || !ref_boxqp(Quu.cast<double>(), Qu.cast<double>(), lb, ub, &x, &a, &mg) || mg < 1e-4) { o.ok = false; return o; }
        k = -x.cast<ld>();
        K.setZero();
        std::vector<Eigen::Index> fr;
        for (Eigen::Index j = 0; j < nu; j++) {
          if (a[(size_t)j] == 0) fr.push_back(j);
          else {
            Qd[j] = 0;
            if (std::fabs((double)k[j]) > 1e-6) o.clamped_moving = true;
          }
        }
        const Eigen::Index nf = (Eigen::Index)fr.size();
        MatL Hf(nf, nf), R(nf, n);
        for (Eigen::Index r = 0; r < nf; r++) {
          for (Eigen::Index c = 0; c < nf; c++) Hf(r, c) = Quu(fr[(size_t)r], fr[(size_t)c]);
          R.row(r) = Qxu.col(fr[(size_t)r]).transpose();
        }
        if (nf) {
          MatL S = Hf.ldlt().solve(R);
          for (Eigen::Index r = 0; r < nf; r++) K.row(fr[(size_t)r]) = S.row(r);
        }
      } else if (nh) {
        MatL A = MatL::Zero(nu + nh, nu + nh), B(nu + nh, 1 + n);
        A.topLeftCorner(nu, nu) = Quu;
        A.topRightCorner(nu, nh) = d.Hu.cast<ld>().transpose();
        A.bottomLeftCorner(nh, nu) = d.Hu.cast<ld>();
        B.topLeftCorner(nu, 1) = Qu;
        B.topRightCorner(nu, n) = Qxu.transpose();
        B.bottomLeftCorner(nh, 1) = d.h.cast<ld>();
        B.bottomRightCorner(nh, n) = d.Hx.cast<ld>();
        Eigen::JacobiSVD<MatL> svd(d.Hu.cast<ld>());
        if (nh > nu || svd.singularValues().minCoeff() < 1e-3L) { o.ok = false; return o; }
        Eigen::FullPivLU<MatL> lu(A);
        if (!lu.isInvertible()) { o.ok = false; return o; }
        MatL S = lu.solve(B);
        k = S.col(0).head(nu);
        K = S.topRightCorner(nu, n);
      } else {
        MatL B(nu, 1 + n);
        B.col(0) = Qu;
        B.rightCols(n) = Qxu.transpose();
        MatL S = Quu.ldlt().solve(B);
        k = S.col(0);
        K = S.rightCols(n);
      }
      d0 += Qd.dot(k);
      d1 -= k.dot(Quu * k);
      o.slack += (double)((ld)nu * 1e-5L * (Qu.cwiseAbs().sum() + (Quu * k).cwiseAbs().sum()) / lo);
      o.noise += (double)(1e-11L * Qu.cwiseAbs().sum());
      sc += fabsl(Qd.dot(k)) + fabsl(k.dot(Quu * k)) + Qu.cwiseAbs().dot(k.cwiseAbs());
      if (nh) {
        Vx = Qx - Qxu * k - K.transpose() * (Qu - Quu * k);
        Vxx = Qxx + (K.transpose() * Quu - 2 * Qxu) * K;
      } else {
        Vx = Qx - K.transpose() * Qd;
        Vxx = Qxx - Qxu * K;
      }
    }
    MatL V = 0.5L * (Vxx + Vxx.transpose());
    V.diagonal().array() += reg;
    if (!in.feasible) Vx += V * o.fs[i];
    o.Vx[i] = Vx;
    o.Vxx[i] = V;
    o.k[i] = k;
    o.K[i] = K;
  }
  ld g0 = 0, g1 = 0;
  if (!in.feasible)
    for (size_t i = 0; i <= T; i++) {
      g0 -= o.Vx[i].dot(o.fs[i]);
      g1 += o.fs[i].dot(o.Vxx[i] * o.fs[i]);
      sc += o.Vx[i].cwiseAbs().dot(o.fs[i].cwiseAbs()) + fabsl(o.fs[i].dot(o.Vxx[i] * o.fs[i]));
    }
  o.d0 = (double)d0;
  o.d1 = (double)d1;
  o.gd0 = (double)g0;
  o.gd1 = (double)g1;
  o.scale = (double)sc;
  if (!std::isfinite(o.scale) || !std::isfinite(o.d0) || !std::isfinite(o.d1)) o.ok = false;
  return o;
}
double ref_kkt_stop(const cr::ShootingProblem& p, const RefIn& in, bool* ok) {
  const auto& ms = p.get_runningModels();
  const auto& ds = p.get_runningDatas();
  const Eigen::Index T = (Eigen::Index)ms.size(), n = (Eigen::Index)p.get_ndx();
  Eigen::Index nu = 0;
  for (auto& m : ms) nu += (Eigen::Index)m->get_nu();
  const Eigen::Index nx = n * (T + 1), N = nx + nu;
  MatL A = MatL::Zero(N + nx, N + nx);
  VecL b = VecL::Zero(N + nx);
  std::vector<VectorXd> f = gaps(p, in.xs);
  Eigen::Index iu = nx;
  for (Eigen::Index t = 0; t <= T; t++) {
    const cr::ActionDataAbstract& d = t < T ? *ds[(size_t)t] : *p.get_terminalData();
    A.block(t * n, t * n, n, n) = d.Lxx.cast<ld>();
    b.segment(t * n, n) = d.Lx.cast<ld>();
    A.block(N + t * n, t * n, n, n).setIdentity();
    b.segment(N + t * n, n) = -f[(size_t)t].cast<ld>();
    if (t == T) break;
    const Eigen::Index m = (Eigen::Index)ms[(size_t)t]->get_nu();
    A.block(t * n, iu, n, m) = d.Lxu.cast<ld>();
    A.block(iu, t * n, m, n) = d.Lxu.cast<ld>().transpose();
    A.block(iu, iu, m, m) = d.Luu.cast<ld>();
    b.segment(iu, m) = d.Lu.cast<ld>();
    A.block(N + (t + 1) * n, t * n, n, n) = -d.Fx.cast<ld>();
    A.block(N + (t + 1) * n, iu, n, m) = -d.Fu.cast<ld>();
    iu += m;
  }
  A.topRightCorner(N, nx) = A.bottomLeftCorner(nx, N).transpose();
  Eigen::FullPivLU<MatL> lu(A);
  *ok = lu.isInvertible() && (double)lu.rcond() > 1e-7 && b.allFinite();
  if (!*ok) return 0;
  VecL s = lu.solve(-b);
  VecL hp = A.topLeftCorner(N, N) * s.head(N);
  return (double)(hp.squaredNorm() + b.tail(nx).squaredNorm());
}
}  // namespace sim
