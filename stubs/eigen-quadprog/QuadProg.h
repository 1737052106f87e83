#pragma once
#include "../stub_backend.h"
#include <Eigen/LU>
namespace Eigen
{
/** min 1/2 x^T Q x + c^T x   s.t. Aeq x = beq, Aineq x <= bineq.
 * With isDecomp, Q is R^{-1}, R being the upper triangular factor with R^T R the quadratic term. */
class QuadProgDense
{
public:
  void problem(int nrvar, int nreq, int nrineq)
  {
    stub::AllowMalloc allow;
    n_ = nrvar;
    neq_ = nreq;
    nineq_ = nrineq;
    x_ = Eigen::VectorXd::Constant(n_, 7777.);
  }
  template<typename MQ, typename VC, typename ME, typename VE, typename MI, typename VI>
  bool solve(const MQ & Q_, const VC & C, const ME & Ae_, const VE & Be_, const MI & Ai_, const VI & Bi_,
             bool isDecomp = false)
  {
    stub::AllowMalloc allow;
    stub::Problem p;
    p.backend = "quadprog";
    p.factorized = isDecomp;
    Eigen::MatrixXd Q = Q_, Ae = Ae_, Ai = Ai_;
    Eigen::VectorXd c = C, be = Be_, bi = Bi_;
    p.n = n_;
    if(Q.rows() != n_ || Q.cols() != n_ || c.size() != n_) p.misuse += "cost size;";
    if(Ae.rows() != neq_ || be.size() != neq_ || (neq_ && Ae.cols() != n_)) p.misuse += "equality size;";
    if(Ai.rows() != nineq_ || bi.size() != nineq_ || (nineq_ && Ai.cols() != n_)) p.misuse += "inequality size;";
    if(p.misuse.empty())
    {
      if(isDecomp)
      {
        Eigen::MatrixXd Ri = Q.triangularView<Eigen::Upper>();
        Eigen::MatrixXd R = Ri.inverse();
        p.Q = R.transpose() * R;
      }
      else
        p.Q = Q;
      p.c = c;
      p.hasCost = true;
      p.nGeneralRows = neq_ + nineq_;
      for(int i = 0; i < neq_; ++i) p.cstr.push_back({Ae.row(i).transpose(), be[i], be[i]});
      for(int i = 0; i < nineq_; ++i) p.cstr.push_back({Ai.row(i).transpose(), -1e150, bi[i]});
    }
    fail_ = stub::solve(p, x_) ? 0 : 1;
    return fail_ == 0;
  }
  int fail() const { return fail_; }
  const Eigen::VectorXd & result() const { return x_; }

private:
  int n_ = 0, neq_ = 0, nineq_ = 0, fail_ = 0;
  Eigen::VectorXd x_;
};
} // namespace Eigen
