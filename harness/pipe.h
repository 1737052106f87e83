// Shared machinery of the checks that run the whole pipeline
//   ControlProblem -> LinearizedControlProblem -> scheme -> solver wrapper -> (stand-in) back-end
// Problems are described twice: once through the library's API, once as plain matrices over a fixed universe of
// scalar unknowns (the specification). What the back-end received is translated to the same universe and compared.
#pragma once
#include "mc.h"
#include "stub_backend.h"

#include <Eigen/Dense>
#include <map>
#include <memory>
#include <tvm/ControlProblem.h>
#include <tvm/LinearizedControlProblem.h>
#include <tvm/Task.h>
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/scheme/WeightedLeastSquares.h>
#include <tvm/task_dynamics/None.h>

namespace pipe_
{
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
constexpr double INF = stub::inf;

/** The unknowns: a list of variables, their components numbered consecutively. */
struct World
{
  std::vector<tvm::VariablePtr> vars;
  std::vector<int> start;
  int N = 0;
  std::vector<double> rest; // values before a solve
  tvm::VariablePtr add(const std::string & name, int size)
  {
    return add(tvm::Space(size).createVariable(name));
  }
  tvm::VariablePtr add(tvm::VariablePtr v)
  {
    vars.push_back(v);
    start.push_back(N);
    N += v->size();
    rest.resize(static_cast<size_t>(N), -555.5);
    return v;
  }
  void set(const Vec & v)
  {
    for(size_t i = 0; i < vars.size(); ++i) vars[i]->value(v.segment(start[i], vars[i]->size()));
  }
  Vec get() const
  {
    Vec v(N);
    for(size_t i = 0; i < vars.size(); ++i) v.segment(start[i], vars[i]->size()) = vars[i]->value();
    return v;
  }
};

/** Mathematical statement of a task: l <= J x <= u (equality when l == u), over the universe. */
struct Spec
{
  std::string name;
  tvm::constraint::Type type = tvm::constraint::Type::EQUAL;
  Mat J;
  Vec l, u;
  std::vector<bool> uses;
  int priority = 0;
  double weight = 1;
  Vec aniso; // empty when none
};

/** A problem in canonical form, over the universe. */
struct Canon
{
  std::vector<bool> uses; // unknowns of the problem
  std::map<std::vector<long>, double> hs; // normalised direction a -> smallest b with a.x <= b
  std::vector<std::pair<Vec, double>> rows; // the same, explicit: a.x <= b (not normalised)
  std::vector<std::tuple<Vec, double, double>> twoSided; // the constraint rows as they came: l <= a.x <= u
  bool infeasible = false; // contains 0 <= negative
  int nRows = 0; // rows of general constraints
  Mat Q;
  Vec c;
  int nObjRows = -1;
};

void addHalfSpace(Canon & c, const Vec & a, double b);
void addRow(Canon & c, const Vec & a, double l, double u);

/** What a weighted least squares scheme must hand to the solver. */
Canon expected(const std::vector<Spec> & tasks, int N, double scalarization, bool damp = false);
/** Translation of a captured problem. col[j]: universe index of solver column j. */
Canon translate(const stub::Problem & p, const std::vector<int> & col, int N);

/** Empty string if the same problem. sameScale: costs must be equal, otherwise equal up to a positive factor. */
std::string compare(const Canon & got, const Canon & want, bool sameScale, double costTol = 1e-7);

std::string show(const Canon & c);
std::string show(const stub::Problem & p);

/** Exact solution of min 1/2 x'Qx + c'x s.t. constraints, then min ||x||^2, by enumeration of active sets.
 * Returns false when infeasible. (The cost must be bounded below: Q = D'D, c in its range.) */
bool exactQP(const Mat & Q, const Vec & c, const std::vector<std::tuple<Vec, double, double>> & rows, Vec & x, int n,
             double feas = 1e-9);
/** Same for a captured (single-level) problem */
bool exactQP(const stub::Problem & p, Vec & x);

/** Flattens LexLS data (levels: constraints, objective) into the single-level form */
stub::Problem flatten(const stub::Problem & p);

enum Backend
{
  QLD,
  QUADPROG,
  LSSOL,
  LEXLS,
  QLD_CHOL,
  QUADPROG_CHOL,
  LEXLS_WARM,
  DEFAULT,
  N_BACKENDS
};
const char * backendName(int b);
/** A scheme using the given back-end. */
std::unique_ptr<tvm::scheme::WeightedLeastSquares> makeScheme(int backend, bool autoDamping = false,
                                                              double scalarization = 1000);

/** Runs one solve while recording what the back-end received. The stand-in answers with distinct values, which
 * identifies the solver columns from the values found in the variables afterwards. */
struct Observation
{
  bool solved = false; // return value of solve
  bool called = false; // the back-end was called
  stub::Problem p; // what it received (flattened)
  std::vector<int> col; // column -> universe index (-1: not found)
  std::vector<bool> touched; // universe components written
  std::string bad; // inconsistency
  Canon canon;
};
/** When set, called around the resolutions made by observe and solveExact (and hier::solveAndCheck) */
std::function<bool(const std::function<bool()> &)> & aroundSolve();

Observation observe(World & w, tvm::LinearizedControlProblem & pb, tvm::scheme::WeightedLeastSquares & s, bool succeed = true);

/** Solves with the exact answer. Returns the value of solve(); the values are in the variables. */
bool solveExact(World & w, tvm::LinearizedControlProblem & pb, tvm::scheme::WeightedLeastSquares & s,
                stub::Problem * captured = nullptr);

/** Exact optimum of the stated problem (unused unknowns left at 0). False when infeasible. */
bool optimum(const std::vector<Spec> & specs, const Canon & want, Vec & x);
/** Empty string if v satisfies the constraints, has the optimal cost (and is the optimum when minNorm). */
std::string checkSolution(const std::vector<Spec> & specs, const Canon & want, const Vec & v, const Vec & best, bool minNorm);

/** Mute std::cout/cerr (solver diagnostics). */
void mute();
} // namespace pipe_
