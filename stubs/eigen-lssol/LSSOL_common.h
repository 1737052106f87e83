#pragma once
#include "../stub_backend.h"
namespace Eigen
{
namespace lssol
{
enum class eType
{
  LS1,
  LS2,
  LS3,
  LS4
};
enum class eStatus
{
  STRONG_MINIMUM = 0,
  FAILED = 1
};
inline std::ostream & operator<<(std::ostream & os, eStatus s) { return os << static_cast<int>(s); }
template<typename Self>
class Options
{
public:
#define STUB_OPT(T, name, def)       \
  T name() const { return name##_; } \
  void name(T v) { name##_ = v; }    \
  T name##_ = def;
  STUB_OPT(double, crashTol, 0.01)
  STUB_OPT(int, feasibilityMaxIter, 50)
  STUB_OPT(double, feasibilityTol, 1e-8)
  STUB_OPT(double, infiniteBnd, 1e10)
  STUB_OPT(double, infiniteStep, 1e10)
  STUB_OPT(int, optimalityMaxIter, 50)
  STUB_OPT(bool, persistence, false)
  STUB_OPT(int, printLevel, 0)
  STUB_OPT(double, rankTol, 1e-8)
  STUB_OPT(bool, warm, false)
  STUB_OPT(bool, forceMinSize, true)
#undef STUB_OPT
  eStatus inform() const { return fail_; }
  std::ostream & print_inform(std::ostream & os = std::cout) const { return os; }
  const Eigen::VectorXd & result() const { return x_; }

protected:
  void record(stub::Problem & p) const
  {
    p.options = {{"crashTol", crashTol_}, {"feasibilityMaxIter", feasibilityMaxIter_}, {"feasibilityTol", feasibilityTol_}, {"infiniteBnd", infiniteBnd_}, {"infiniteStep", infiniteStep_}, {"optimalityMaxIter", optimalityMaxIter_}, {"persistence", persistence_}, {"printLevel", printLevel_}, {"rankTol", rankTol_}, {"warm", warm_}};
  }
  static void rows(stub::Problem & p, int n, int m, const Eigen::MatrixXd & C, const Eigen::VectorXd & l,
                   const Eigen::VectorXd & u)
  {
    p.n = n;
    if(C.rows() != m || (m && C.cols() != n)) p.misuse += "constraint size;";
    if(l.size() != n + m || u.size() != n + m) p.misuse += "bound size;";
    if(!p.misuse.empty()) return;
    p.nGeneralRows = m;
    for(int i = 0; i < m; ++i) p.cstr.push_back({C.row(i).transpose(), l[n + i], u[n + i]});
    p.hasBounds = true;
    p.xl = l.head(n);
    p.xu = u.head(n);
  }
  int n_ = 0, m_ = 0;
  eStatus fail_ = eStatus::STRONG_MINIMUM;
  Eigen::VectorXd x_;
};
} // namespace lssol
} // namespace Eigen
