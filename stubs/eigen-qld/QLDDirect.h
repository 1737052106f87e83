#pragma once
#include "../stub_backend.h"
namespace Eigen
{
/** min 1/2 x^T Q x + c^T x   s.t. A x + b = 0 (first nreq rows), A x + b >= 0, xl <= x <= xu.
 * With isDecomp, Q is the upper triangular factor R with R^T R the quadratic term. */
class QLDDirect
{
public:
  void problem(int nrvar, int nreq, int nrineq, int ldq = -1, bool = false)
  {
    stub::AllowMalloc allow;
    n_ = nrvar;
    neq_ = nreq;
    nineq_ = nrineq;
    (void)ldq;
    x_ = Eigen::VectorXd::Constant(n_, 7777.);
  }
  template<typename MQ, typename VC, typename MA, typename VB, typename V1, typename V2>
  bool solve(const MQ & Q_, const VC & C, const MA & A_, const VB & B, const V1 & XL, const V2 & XU, int nreq,
             bool isDecomp = false, double eps = 1e-8)
  {
    stub::AllowMalloc allow;
    stub::Problem p;
    p.backend = "qld";
    Eigen::MatrixXd Q = Q_, A = A_;
    Eigen::VectorXd c = C, b = B, xl = XL, xu = XU;
    p.n = n_;
    p.tolerance = eps;
    p.factorized = isDecomp;
    if(Q.rows() != n_ || Q.cols() != n_ || c.size() != n_) p.misuse += "cost size;";
    if(A.rows() != neq_ + nineq_ || b.size() != A.rows() || (A.rows() > 0 && A.cols() != n_)) p.misuse += "constraint size;";
    if(nreq != neq_) p.misuse += "number of equalities;";
    if(xl.size() != n_ || xu.size() != n_) p.misuse += "bound size;";
    if(p.misuse.empty())
    {
      if(isDecomp)
      {
        Eigen::MatrixXd R = Q.triangularView<Eigen::Upper>();
        p.Q = R.transpose() * R;
      }
      else
        p.Q = Q;
      p.c = c;
      p.hasCost = true;
      p.nGeneralRows = static_cast<int>(A.rows());
      for(int i = 0; i < A.rows(); ++i) p.cstr.push_back({A.row(i).transpose(), -b[i], i < nreq ? -b[i] : 1e150});
      p.hasBounds = true;
      p.xl = xl;
      p.xu = xu;
    }
    fail_ = stub::solve(p, x_) ? 0 : 1;
    return fail_ == 0;
  }
  int fail() const { return fail_; }
  const Eigen::VectorXd & result() const { return x_; }

private:
  int n_ = 0, neq_ = 0, nineq_ = 0, fail_ = 0;
  Eigen::VectorXd x_;
};
} // namespace Eigen
