#pragma once
#include <iostream>
#include "LSSOL_common.h"
namespace Eigen
{
/** find x s.t. l <= [x; C x] <= u */
class LSSOL_FP : public lssol::Options<LSSOL_FP>
{
public:
  void resize(int n, int m)
  {
    stub::AllowMalloc allow;
    n_ = n;
    m_ = m;
    x_ = Eigen::VectorXd::Constant(n_, 7777.);
  }
  bool solve(const Eigen::MatrixXd & C, const Eigen::VectorXd & l, const Eigen::VectorXd & u)
  {
    stub::AllowMalloc allow;
    stub::Problem p;
    p.backend = "lssol-fp";
    record(p);
    rows(p, n_, m_, C, l, u);
    p.nObjRows = 0;
    bool ok = stub::solve(p, x_);
    fail_ = ok ? lssol::eStatus::STRONG_MINIMUM : lssol::eStatus::FAILED;
    return ok;
  }
};
} // namespace Eigen
