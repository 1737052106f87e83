#pragma once
#include <Eigen/Core>
#include <string>
#include <vector>
#include "../stub_backend.h"
namespace LexLS
{
typedef unsigned int Index;
typedef double RealScalar;
enum ConstraintActivationType
{
  CTR_INACTIVE,
  CTR_ACTIVE_LB,
  CTR_ACTIVE_UB,
  CTR_ACTIVE_EQ,
  CORRECT_SIGN_OF_LAMBDA
};
enum ObjectiveType
{
  SIMPLE_BOUNDS_OBJECTIVE,
  GENERAL_OBJECTIVE
};
enum TerminationStatus
{
  PROBLEM_SOLVED,
  PROBLEM_SOLVED_CYCLING_HANDLING,
  MAX_NUMBER_OF_FACTORIZATIONS_EXCEEDED,
  TERMINATION_STATUS_UNKNOWN
};
enum RegularizationType
{
  REGULARIZATION_NONE,
  REGULARIZATION_TIKHONOV
};
struct ConstraintIdentifier
{
  Index obj_index, ctr_index;
  ConstraintActivationType ctr_type;
};
struct ParametersLexLSI
{
  Index max_number_of_factorizations = 200;
  RealScalar tol_linear_dependence = 1e-12, tol_wrong_sign_lambda = 1e-8, tol_correct_sign_lambda = 1e-12,
             tol_feasibility = 1e-13;
  RegularizationType regularization_type = REGULARIZATION_NONE;
  Index max_number_of_CG_iterations = 10;
  RealScalar variable_regularization_factor = 0;
  bool cycling_handling_enabled = true;
  Index cycling_max_counter = 50;
  RealScalar cycling_relax_step = 1e-8;
  std::string output_file_name;
  bool modify_x_guess_enabled = false, modify_type_active_enabled = false, modify_type_inactive_enabled = false,
       set_min_init_ctr_violation = true, use_phase1_v0 = false, log_working_set_enabled = false,
       deactivate_first_wrong_sign = false;
};
namespace internal
{
/** lexicographic least squares: level 0 may be simple bounds [lb ub], the others are [A lb ub] */
class LexLSI
{
public:
  LexLSI() : x_(Eigen::VectorXd::Zero(0)) {}
  void resize(Index n, Index nObj, Index * dims, ObjectiveType * types)
  {
    stub::AllowMalloc allow;
    n_ = static_cast<int>(n);
    dim_.assign(dims, dims + nObj);
    type_.assign(types, types + nObj);
    data_.assign(nObj, Eigen::MatrixXd());
    set_.assign(nObj, false);
    x_ = Eigen::VectorXd::Constant(n_, 7777.);
  }
  void setParameters(const ParametersLexLSI & p) { param_ = p; }
  void reset()
  {
    std::fill(set_.begin(), set_.end(), false);
    warm_.clear();
  }
  template<typename M>
  void setData(Index lvl, Index * idx, const M & m)
  {
    if(lvl >= dim_.size())
    {
      misuse_ += "level index;";
      return;
    }
    if(type_[lvl] != SIMPLE_BOUNDS_OBJECTIVE) misuse_ += "bounds given for a general level;";
    for(int i = 0; i < n_; ++i)
      if(idx[i] != static_cast<Index>(i)) misuse_ += "bound index;";
    store(lvl, m, 2);
  }
  template<typename M>
  void setData(Index lvl, const M & m)
  {
    if(lvl >= dim_.size())
    {
      misuse_ += "level index;";
      return;
    }
    if(type_[lvl] != GENERAL_OBJECTIVE) misuse_ += "general data given for a bound level;";
    store(lvl, m, n_ + 2);
  }
  void activate(Index lvl, Index row, ConstraintActivationType t, bool = true)
  {
    if(lvl >= dim_.size() || row >= dim_[lvl]) misuse_ += "activated constraint does not exist;";
    warm_.push_back(std::to_string(lvl) + ":" + std::to_string(row) + ":" + std::to_string(t));
  }
  template<typename V>
  void set_x0(const V & x0)
  {
    if(x0.size() != n_) misuse_ += "x0 size;";
  }
  TerminationStatus solve()
  {
    stub::AllowMalloc allow;
    stub::Problem p;
    p.backend = "lexls";
    p.isHierarchical = true;
    p.n = n_;
    p.warm = warm_;
    p.options = {{"max_number_of_factorizations", static_cast<double>(param_.max_number_of_factorizations)}, {"tol_linear_dependence", static_cast<double>(param_.tol_linear_dependence)}, {"tol_wrong_sign_lambda", static_cast<double>(param_.tol_wrong_sign_lambda)}, {"tol_correct_sign_lambda", static_cast<double>(param_.tol_correct_sign_lambda)}, {"tol_feasibility", static_cast<double>(param_.tol_feasibility)}, {"regularization_type", static_cast<double>(param_.regularization_type)}, {"max_number_of_CG_iterations", static_cast<double>(param_.max_number_of_CG_iterations)}, {"variable_regularization_factor", static_cast<double>(param_.variable_regularization_factor)}, {"cycling_handling_enabled", static_cast<double>(param_.cycling_handling_enabled)}, {"cycling_max_counter", static_cast<double>(param_.cycling_max_counter)}, {"cycling_relax_step", static_cast<double>(param_.cycling_relax_step)}, {"modify_x_guess_enabled", static_cast<double>(param_.modify_x_guess_enabled)}, {"modify_type_active_enabled", static_cast<double>(param_.modify_type_active_enabled)}, {"modify_type_inactive_enabled", static_cast<double>(param_.modify_type_inactive_enabled)}, {"set_min_init_ctr_violation", static_cast<double>(param_.set_min_init_ctr_violation)}, {"use_phase1_v0", static_cast<double>(param_.use_phase1_v0)}, {"log_working_set_enabled", static_cast<double>(param_.log_working_set_enabled)}, {"deactivate_first_wrong_sign", static_cast<double>(param_.deactivate_first_wrong_sign)}, {"output_file_name", static_cast<double>(param_.output_file_name.size())}};
    p.misuse = misuse_;
    misuse_.clear();
    for(size_t i = 0; i < dim_.size(); ++i)
      if(!set_[i]) p.misuse += "level without data;";
    if(p.misuse.empty())
    {
      for(size_t i = 0; i < dim_.size(); ++i)
      {
        const auto & D = data_[i];
        if(type_[i] == SIMPLE_BOUNDS_OBJECTIVE)
        {
          p.hasBounds = true;
          p.xl = D.col(0);
          p.xu = D.col(1);
        }
        else
        {
          p.levels.emplace_back();
          for(int r = 0; r < D.rows(); ++r)
            p.levels.back().push_back({D.row(r).head(n_).transpose(), D(r, n_), D(r, n_ + 1)});
        }
      }
    }
    bool ok = stub::solve(p, x_);
    return ok ? PROBLEM_SOLVED : TERMINATION_STATUS_UNKNOWN;
  }
  void getActiveCtr(Index lvl, std::vector<ConstraintActivationType> & act) const
  {
    act.assign(dim_.at(lvl), CTR_INACTIVE);
    for(size_t i = 0; i < act.size(); ++i) act[i] = i % 2 ? CTR_ACTIVE_UB : CTR_INACTIVE;
  }
  void getActiveCtr_order(std::vector<ConstraintIdentifier> & act) const
  {
    act.clear();
    for(size_t l = 0; l < dim_.size(); ++l)
      for(Index i = 0; i < dim_[l]; i += 2) act.push_back({static_cast<Index>(l), i, CTR_ACTIVE_LB});
  }
  const Eigen::VectorXd & get_x() const { return x_; }
  void print(const char *) const {}

private:
  template<typename M>
  void store(Index lvl, const M & m, int cols)
  {
    stub::AllowMalloc allow;
    if(m.rows() != static_cast<Eigen::Index>(dim_[lvl]) || m.cols() != cols) misuse_ += "level size;";
    data_[lvl] = m;
    if(data_[lvl].cols() != cols) data_[lvl].conservativeResize(data_[lvl].rows(), cols);
    set_[lvl] = true;
  }
  int n_ = 0;
  std::vector<Index> dim_;
  std::vector<ObjectiveType> type_;
  std::vector<Eigen::MatrixXd> data_;
  std::vector<bool> set_;
  std::vector<std::string> warm_;
  std::string misuse_;
  ParametersLexLSI param_;
  Eigen::VectorXd x_;
};
} // namespace internal
} // namespace LexLS
