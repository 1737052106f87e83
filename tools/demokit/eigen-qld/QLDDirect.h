// Small exact stand-in for the QLD package: records what it is handed, solves by enumeration of active sets.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <functional>
#include <vector>
namespace Eigen
{
struct QLDRecord
{
  MatrixXd Q, A;
  VectorXd c, b, xl, xu, x;
  int neq = 0, calls = 0;
  bool ok = false;
};
inline QLDRecord & qldRecord()
{
  static QLDRecord r;
  return r;
}
class QLDDirect
{
public:
  void problem(int n, int neq, int nineq, int = -1, bool = false)
  {
    n_ = n;
    m_ = neq + nineq;
    x_ = VectorXd::Zero(n);
  }
  template<typename MQ, typename VC, typename MA, typename VB, typename V1, typename V2>
  bool solve(const MQ & Q0, const VC & C, const MA & A0, const VB & B, const V1 & XL, const V2 & XU, int neq, bool dec = false, double = 1e-8)
  {
    auto & R = qldRecord();
    MatrixXd T = Q0;
    if(dec)
    {
      MatrixXd U = T.triangularView<Upper>();
      T = U.transpose() * U;
    }
    R.Q = T;
    R.c = C;
    R.A = A0;
    R.b = B;
    R.xl = XL;
    R.xu = XU;
    R.neq = neq;
    R.calls++;
    R.ok = run(R);
    R.x = x_;
    return R.ok;
  }
  int fail() const { return 0; }
  const VectorXd & result() const { return x_; }

private:
  int n_ = 0, m_ = 0;
  VectorXd x_;
  bool run(const QLDRecord & R)
  {
    int n = static_cast<int>(R.Q.rows());
    std::vector<std::pair<VectorXd, double>> eq, in; // a.x = b ; a.x >= b
    for(int i = 0; i < R.A.rows(); ++i)
      (i < R.neq ? eq : in).push_back({R.A.row(i).transpose(), -R.b[i]});
    for(int i = 0; i < n; ++i)
    {
      VectorXd e = VectorXd::Unit(n, i);
      if(R.xl[i] > -1e20) in.push_back({e, R.xl[i]});
      if(R.xu[i] < 1e20) in.push_back({-e, -R.xu[i]});
    }
    bool found = false;
    double best = 0;
    std::vector<int> act;
    std::function<void(int)> rec = [&](int from) {
      MatrixXd M(static_cast<int>(eq.size() + act.size()), n);
      VectorXd d(M.rows());
      int k = 0;
      for(auto & h : eq) { M.row(k) = h.first.transpose(); d[k++] = h.second; }
      for(int i : act) { M.row(k) = in[static_cast<size_t>(i)].first.transpose(); d[k++] = in[static_cast<size_t>(i)].second; }
      MatrixXd K = MatrixXd::Zero(n + M.rows(), n + M.rows());
      K.topLeftCorner(n, n) = R.Q;
      K.topRightCorner(n, M.rows()) = M.transpose();
      K.bottomLeftCorner(M.rows(), n) = M;
      VectorXd r(n + M.rows());
      r << -R.c, d;
      VectorXd s = K.completeOrthogonalDecomposition().solve(r);
      VectorXd x = s.head(n);
      bool ok = (K * s - r).cwiseAbs().maxCoeff() < 1e-7;
      for(auto & h : in) ok = ok && h.first.dot(x) >= h.second - 1e-7;
      double cost = 0.5 * x.dot(R.Q * x) + R.c.dot(x) + 1e-9 * x.squaredNorm();
      if(ok && (!found || cost < best - 1e-12))
      {
        found = true;
        best = cost;
        x_ = x;
      }
      if(static_cast<int>(act.size()) < n)
        for(int i = from; i < static_cast<int>(in.size()); ++i)
        {
          act.push_back(i);
          rec(i + 1);
          act.pop_back();
        }
    };
    rec(0);
    return found;
  }
};
} // namespace Eigen
