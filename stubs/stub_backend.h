// Stand-in numerical back-ends: the library's own solver wrappers (QLD, Quadprog, LSSOL, LexLS) are compiled
// against these headers instead of the real (absent) packages. Each stand-in records, in one canonical form, the
// problem it was handed (following the documented conventions of the real package) and answers with whatever the
// harness decides.
#pragma once
#include <Eigen/Core>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace stub
{
/** lower <= a.x <= upper */
struct Row
{
  Eigen::VectorXd a;
  double l, u;
};
struct Problem
{
  std::string backend;
  int n = 0;
  int nGeneralRows = 0; // rows of general constraints (bounds excluded), as passed
  int nObjRows = -1; // rows of the least-square objective, when the back-end sees them
  std::vector<Row> cstr; // general constraints, as lower/upper rows
  bool hasBounds = false;
  Eigen::VectorXd xl, xu;
  bool hasCost = false;
  Eigen::MatrixXd Q; // cost: 1/2 x^T Q x + c^T x
  Eigen::VectorXd c;
  // hierarchical back-ends: rows per level (bounds of a dedicated bound level are in xl/xu)
  std::vector<std::vector<Row>> levels;
  bool isHierarchical = false;
  // anything odd about the call itself (bad sizes, ...)
  std::string misuse;
  double tolerance = 0; // QLD eps
  bool factorized = false;
  std::vector<std::string> warm; // warm start instructions
  std::map<std::string, double> options; // options of the back-end at the time of the call
};

constexpr double inf = 1e100; // magnitude above which a bound counts as absent

/** Called by every stand-in. Must set x (size n) and return success. */
using Answer = std::function<bool(const Problem &, Eigen::VectorXd & x)>;
Answer & answer();
/** Performs the call (a missing answer function returns zero and success). */
bool solve(Problem & p, Eigen::VectorXd & x);
/** The stand-ins may allocate, whatever the mode chosen by the user of the library. */
struct AllowMalloc
{
#ifdef EIGEN_RUNTIME_NO_MALLOC
  bool was = Eigen::internal::is_malloc_allowed();
  AllowMalloc() { Eigen::internal::set_is_malloc_allowed(true); }
  ~AllowMalloc() { Eigen::internal::set_is_malloc_allowed(was); }
#else
  AllowMalloc() {}
#endif
};
} // namespace stub
