#pragma once
#include <iostream>
#include "LSSOL_common.h"
namespace Eigen
{
/** min 1/2||A x - b||^2   s.t. l <= [x; C x] <= u. Overwrites A and b. */
class LSSOL_LS : public lssol::Options<LSSOL_LS>
{
public:
  void resize(int n, int m, lssol::eType)
  {
    stub::AllowMalloc allow;
    n_ = n;
    m_ = m;
    x_ = Eigen::VectorXd::Constant(n_, 7777.);
  }
  bool solve(Eigen::Ref<Eigen::MatrixXd> A, const Eigen::VectorXd & b, const Eigen::MatrixXd & C,
             const Eigen::VectorXd & l, const Eigen::VectorXd & u)
  {
    stub::AllowMalloc allow;
    stub::Problem p;
    p.backend = "lssol";
    record(p);
    rows(p, n_, m_, C, l, u);
    if(A.cols() != n_ || A.rows() != b.size()) p.misuse += "cost size;";
    if(p.misuse.empty())
    {
      p.hasCost = true;
      p.nObjRows = static_cast<int>(A.rows());
      p.Q = A.transpose() * A;
      p.c = -A.transpose() * b;
    }
    bool ok = stub::solve(p, x_);
    A.setConstant(123.25); // LSSOL overwrites A during the resolution
    fail_ = ok ? lssol::eStatus::STRONG_MINIMUM : lssol::eStatus::FAILED;
    return ok;
  }
};
} // namespace Eigen
