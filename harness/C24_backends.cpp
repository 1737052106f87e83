// C24: each supported numerical solver receives and answers the same stated problem, whatever its options.
#include "history.h" // uses pipe.h and pipe.cpp

#include <tvm/solver/LSSOLLeastSquareSolver.h>
#include <tvm/solver/LexLSLeastSquareSolver.h>
#include <tvm/solver/QLDLeastSquareSolver.h>
#include <tvm/solver/QuadprogLeastSquareSolver.h>
#include <tvm/solver/defaultLeastSquareSolver.h>
#include <tvm/scheme/HierarchicalLeastSquares.h>
#include <tvm/solver/LexLSHierarchicalLeastSquareSolver.h>

namespace
{
using Scheme = tvm::scheme::WeightedLeastSquares;
using tvm::scheme::WeightedLeastSquaresOptions;
using namespace tvm::solver;

struct Variant
{
  std::string name;
  std::function<std::unique_ptr<Scheme>(const WeightedLeastSquaresOptions &)> make;
  std::map<std::string, double> options; // what the back-end must be set to
  double tolerance = 0; // when not 0
  double damping = 0; // added to the quadratic term
  double underDamping = 0; // added when there are less rows than unknowns
  bool needsRank = false; // a factor is inverted: full column rank needed when there are enough rows
  bool slow = false;
};

template<typename O>
O lexOptions(bool second)
{
  O o;
  o.max_number_of_factorizations(second ? 17 : 1);
  o.tol_linear_dependence(second ? 1e-3 : 0);
  o.tol_wrong_sign_lambda(second ? 2e-3 : 0);
  o.tol_correct_sign_lambda(second ? 3e-3 : 0);
  o.tol_feasibility(second ? 4e-3 : 0);
  o.regularization_type(second ? LexLS::REGULARIZATION_TIKHONOV : LexLS::REGULARIZATION_NONE);
  o.max_number_of_CG_iterations(second ? 23 : 0);
  o.variable_regularization_factor(second ? 0.75 : 0);
  o.cycling_handling_enabled(!second);
  o.cycling_max_counter(second ? 31 : 1);
  o.cycling_relax_step(second ? 5e-3 : 0);
  o.modify_x_guess_enabled(second);
  o.modify_type_active_enabled(!second);
  o.modify_type_inactive_enabled(second);
  o.set_min_init_ctr_violation(!second);
  o.use_phase1_v0(second);
  o.log_working_set_enabled(!second);
  o.deactivate_first_wrong_sign(second);
  o.output_file_name(second ? std::string("abc") : std::string("file"));
  return o;
}
std::map<std::string, double> lexExpected(bool second)
{
  return {{"max_number_of_factorizations", second ? 17 : 1},
          {"tol_linear_dependence", second ? 1e-3 : 0},
          {"tol_wrong_sign_lambda", second ? 2e-3 : 0},
          {"tol_correct_sign_lambda", second ? 3e-3 : 0},
          {"tol_feasibility", second ? 4e-3 : 0},
          {"regularization_type", second ? LexLS::REGULARIZATION_TIKHONOV : LexLS::REGULARIZATION_NONE},
          {"max_number_of_CG_iterations", second ? 23 : 0},
          {"variable_regularization_factor", second ? 0.75 : 0},
          {"cycling_handling_enabled", !second},
          {"cycling_max_counter", second ? 31 : 1},
          {"cycling_relax_step", second ? 5e-3 : 0},
          {"modify_x_guess_enabled", second},
          {"modify_type_active_enabled", !second},
          {"modify_type_inactive_enabled", second},
          {"set_min_init_ctr_violation", !second},
          {"use_phase1_v0", second},
          {"log_working_set_enabled", !second},
          {"deactivate_first_wrong_sign", second},
          {"output_file_name", second ? 3 : 4}};
}
LSSOLLSSolverOptions lssolOptions(bool second)
{
  LSSOLLSSolverOptions o;
  o.crashTol(second ? 0.5 : 0);
  o.feasibilityMaxIter(second ? 11 : 7);
  o.feasibilityTol(second ? 1e-3 : 2e-3);
  o.infiniteBnd(second ? 1e30 : 1e20);
  o.infiniteStep(second ? 1e31 : 1e21);
  o.optimalityMaxIter(second ? 13 : 9);
  o.persistence(second);
  o.printLevel(second ? 0 : 5);
  o.rankTol(second ? 1e-4 : 1e-5);
  o.warm(!second);
  return o;
}
std::map<std::string, double> lssolExpected(bool second)
{
  return {{"crashTol", second ? 0.5 : 0},          {"feasibilityMaxIter", second ? 11 : 7}, {"feasibilityTol", second ? 1e-3 : 2e-3},
          {"infiniteBnd", second ? 1e30 : 1e20},   {"infiniteStep", second ? 1e31 : 1e21},  {"optimalityMaxIter", second ? 13 : 9},
          {"persistence", second},                 {"printLevel", second ? 0 : 5},          {"rankTol", second ? 1e-4 : 1e-5},
          {"warm", !second}};
}

template<typename O>
std::function<std::unique_ptr<Scheme>(const WeightedLeastSquaresOptions &)> maker(const O & o)
{ return [o](const WeightedLeastSquaresOptions & w) { return std::make_unique<Scheme>(o, w); }; }

const std::vector<Variant> & variants()
{
  static std::vector<Variant> v;
  if(!v.empty()) return v;
  auto add = [&](const std::string & n, auto o) -> Variant & {
    v.push_back({n, maker(o), {}});
    return v.back();
  };
  add("QLD, eps, verbose", QLDLSSolverOptions().eps(1e-3).verbose(true)).tolerance = 1e-3;
  add("QLD, large numbers", QLDLSSolverOptions().big_number(1e120)).tolerance = 1e-6;
  {
    auto & x = add("QLD, Cholesky with damping, verbose", QLDLSSolverOptions().cholesky(true).choleskyDamping(0.25).verbose(true));
    x.underDamping = 0.0625;
    x.tolerance = 1e-6;
  }
  {
    auto & x = add("QLD, Cholesky, damping unused", QLDLSSolverOptions().choleskyDamping(0.25).eps(0.5));
    x.tolerance = 0.5;
  }
  add("Quadprog, damping, verbose", QuadprogLSSolverOptions().damping(0.5).verbose(true)).damping = 0.5;
  add("Quadprog, large numbers", QuadprogLSSolverOptions().big_number(1e120).choleskyDamping(0.5));
  {
    auto & x = add("Quadprog, Cholesky with damping, verbose", QuadprogLSSolverOptions().cholesky(true).choleskyDamping(0.25).damping(0.5).verbose(true));
    x.underDamping = 0.0625;
    x.needsRank = true;
  }
  add("LSSOL, options", lssolOptions(false)).options = lssolExpected(false);
  add("LSSOL, other options, verbose", lssolOptions(true).verbose(true)).options = lssolExpected(true);
  add("LSSOL, large numbers", LSSOLLSSolverOptions().big_number(1e120));
  {
    auto o = lexOptions<LexLSLSSolverOptions>(false);
    add("LexLS, options", o).options = lexExpected(false);
    auto q = lexOptions<LexLSLSSolverOptions>(true);
    q.warmStart(true);
    q.verbose(true);
    add("LexLS, other options, warm start, verbose", q).options = lexExpected(true);
    add("LexLS, large numbers", LexLSLSSolverOptions().big_number(1e120));
  }
  add("default, verbose", DefaultLSSolverOptions().verbose(true));
  add("default, large numbers", DefaultLSSolverOptions().big_number(1e120));
  return v;
}

Canon adapt(Ctx & c, const Variant & v, Canon want, bool minNorm)
{
  int n = 0;
  for(bool u : want.uses) n += u;
  auto damp = [&](double d) {
    for(int i = 0; i < want.Q.rows(); ++i)
      if(want.uses[static_cast<size_t>(i)]) want.Q(i, i) += d;
  };
  if(v.needsRank && !minNorm && n > 0 && want.nObjRows >= n)
  {
    Eigen::FullPivLU<Mat> lu(want.Q);
    lu.setThreshold(1e-9);
    if(lu.rank() < n) c.prune();
  }
  if(minNorm) return want;
  damp(v.damping);
  if(want.nObjRows < n) damp(v.underDamping);
  return want;
}

void solveAndCheck(Ctx & c, World & w, tvm::LinearizedControlProblem & pb, Scheme & s, const Variant & v, const std::vector<Spec> & specs, bool damp,
                   double scal, bool succeed, bool sameScale)
{
  bool hasObj = false;
  for(auto & t : specs) hasObj = hasObj || t.priority > 0;
  Canon want = adapt(c, v, expected(specs, w.N, scal, damp), damp && !hasObj);
  Observation o = observe(w, pb, s, succeed);
  if(specs.empty()) return;
  c.check(o.called, "solver-not-called", [&] { return std::string("the numerical solver was not called"); });
  c.check(o.bad.empty(), "bad-call", [&] { return o.bad; });
  c.check(o.solved == succeed, "status", [&] { return cat("solve returned ", o.solved, ", the solver ", succeed ? "succeeded" : "failed"); });
  std::string d = compare(o.canon, want, sameScale && !v.damping && !v.underDamping);
  if(d.empty() && (v.damping || v.underDamping))
  {
    // the damping is an absolute quantity
    d = compare(o.canon, want, true);
  }
  c.check(d.empty(), "data", [&] { return v.name + ": " + d + " raw " + show(o.p); });
  if(v.tolerance) c.check(o.p.tolerance == v.tolerance, "option", [&] { return cat("tolerance ", o.p.tolerance, " given to the solver, ", v.tolerance, " was asked"); });
  for(auto & p : v.options)
  {
    auto it = o.p.options.find(p.first);
    c.check(it != o.p.options.end() && it->second == p.second, "option", [&] { return cat("option ", p.first, " of the solver is not ", p.second); });
  }
  c.state(Hash().m(o.canon.Q).m(o.canon.c).i(static_cast<int64_t>(o.canon.hs.size())).i(o.p.n).s(v.name));
}

const Variant & choose(Ctx & c)
{
  const Variant & v = variants()[static_cast<size_t>(c.choose(static_cast<int>(variants().size())))];
  c.step([&] { return v.name; });
  return v;
}

void tasks(Ctx & c, int n)
{
  const Variant & v = choose(c);
  Std w;
  const auto & pal = palette();
  tvm::LinearizedControlProblem pb;
  std::vector<Spec> specs;
  bool damp = c.flip();
  int prev = -1;
  for(int i = 0; i < n; ++i)
  {
    int left = static_cast<int>(pal.size()) - prev - 1 - (n - 1 - i);
    prev = prev + 1 + c.choose(left);
    auto & e = pal[static_cast<size_t>(prev)];
    auto t = e.make(w);
    int p = e.ineq ? 0 : c.choose(3);
    t.second.priority = p;
    t.second.weight = p == 2 ? 4 : 1;
    if(p == 2)
      pb.add(t.first, {PriorityLevel(2), Weight(4)});
    else
      pb.add(t.first, {PriorityLevel(p)});
    specs.push_back(t.second);
    c.step([&] { return cat("task ", e.name, " priority ", p); });
  }
  auto s = v.make(WeightedLeastSquaresOptions().autoDamping(damp).scalarizationWeight(10));
  solveAndCheck(c, w, pb, *s, v, specs, damp, 10, true, true);
  c.step("again, the solver fails");
  solveAndCheck(c, w, pb, *s, v, specs, damp, 10, false, true);
  c.step("again");
  solveAndCheck(c, w, pb, *s, v, specs, damp, 10, true, true);
}

/** damped solvers are not compared up to a factor: keep the reference priority */
void edits(Ctx & c)
{
  const Variant & v = choose(c);
  Problem p;
  bool damp = !v.damping && !v.underDamping; // (changes of scale would matter)
  p.s[0] = v.make(WeightedLeastSquaresOptions().autoDamping(damp).scalarizationWeight(10));
  p.damp = damp;
  p.minPrio = 1;
  bool fixedScale = v.damping || v.underDamping;
  auto solve = [&](bool ok) {
    c.step(ok ? "solve" : "solve, the solver fails");
    auto specs = p.specs();
    if(fixedScale)
      for(auto & s : specs)
        if(s.priority > 1) c.prune();
    solveAndCheck(c, p.w, p.pb, *p.s[0], v, specs, damp, 10, ok, false);
  };
  int init = c.choose(2);
  for(size_t i : init ? std::vector<size_t>{0, 2, 4, 5, 8} : std::vector<size_t>{5, 8}) p.add(i);
  c.step([&] { return cat("start ", init); });
  solve(true);
  static const std::vector<Action> acts = {{TOGGLE, 0}, {TOGGLE, 2}, {TOGGLE, 5}, {TOGGLE, 7}, {DATA, 8}, {WEIGHT, 8}, {READD, 2}, {TOGGLE, 3}, {TOGGLE, 10}, {DATA, 2}, {READD, 8}};
  int depth = c.thorough ? 4 : 3;
  for(int d = 0; d < depth; ++d)
  {
    // the quick tier leaves four of the actions to the first edit
    const Action & a = acts[static_cast<size_t>(c.choose(d && !c.thorough ? 7 : static_cast<int>(acts.size())))];
    if(!p.enabled(a)) c.prune();
    std::string t = p.apply(a);
    c.step(t);
    int k = d == depth - 1 ? 1 : c.choose(3);
    if(k) solve(k == 1);
  }
}

/** one scheme for two problems, solved in turn, edited in between */
void shared(Ctx & c)
{
  const Variant & v = choose(c);
  if(v.damping || v.underDamping) c.prune();
  Problem p[2];
  p[1].damp = p[0].damp = true;
  auto s = v.make(WeightedLeastSquaresOptions().autoDamping(true).scalarizationWeight(10));
  for(size_t i : {0, 2, 5}) p[0].add(i);
  for(size_t i : {3, 8, 10}) p[1].add(i);
  static const std::vector<Action> acts = {{TOGGLE, 0}, {TOGGLE, 5}, {TOGGLE, 8}, {DATA, 2}, {TOGGLE, 4}};
  int depth = c.thorough ? 5 : 4;
  for(int d = 0; d < depth; ++d)
  {
    int k = c.choose(2);
    int op = c.choose(c.thorough ? static_cast<int>(acts.size()) + 1 : 4);
    if(op == 0)
    {
      c.step([&] { return cat("solve problem ", k); });
      solveAndCheck(c, p[k].w, p[k].pb, *s, v, p[k].specs(), true, 10, true, false);
    }
    else
    {
      const Action & a = acts[static_cast<size_t>(op - 1)];
      if(!p[k].enabled(a)) c.prune();
      std::string t = p[k].apply(a);
      c.step([&] { return cat("problem ", k, ": ", t); });
    }
  }
  for(int k = 0; k < 2; ++k)
  {
    c.step([&] { return cat("solve problem ", k); });
    solveAndCheck(c, p[k].w, p[k].pb, *s, v, p[k].specs(), true, 10, true, false);
  }
}

/** options of the hierarchical solver, and its failures */
void hierarchical(Ctx & c)
{
  mute();
  bool second = c.flip(), feasible = c.flip(), warm = c.flip(), verbose = c.flip();
  c.step([&] { return cat("options ", second, feasible ? ", feasible first level" : "", warm ? ", warm start" : "", verbose ? ", verbose" : ""); });
  auto o = lexOptions<LexLSHLSSolverOptions>(second);
  o.feasibleFirstLevel(feasible).warmStart(warm).verbose(verbose);
  tvm::scheme::HierarchicalLeastSquares s(o);
  Std w;
  tvm::LinearizedControlProblem pb;
  std::vector<tvm::TaskWithRequirementsPtr> t;
  for(int id : {0, 12, 20}) t.push_back(pb.add(palette()[static_cast<size_t>(id)].make(w).first, PriorityLevel(id == 20 ? 1 : 0)));
  auto want = lexExpected(second);
  size_t rows = 0;
  for(int k = 0; k < 4; ++k)
  {
    bool ok = c.flip();
    c.step([&] { return cat("solve, the solver ", ok ? "succeeds" : "fails"); });
    int calls = 0;
    stub::answer() = [&](const stub::Problem & p, Vec & x) {
      ++calls;
      c.check(p.misuse.empty(), "misuse", [&] { return p.misuse; });
      for(auto & q : want)
      {
        auto it = p.options.find(q.first);
        c.check(it != p.options.end() && it->second == q.second, "option", [&] { return cat("option ", q.first, " of the solver is not ", q.second); });
      }
      size_t r = 0;
      for(auto & l : p.levels) r += l.size();
      c.check(k == 0 || r == rows, "rows", "the number of rows changed");
      rows = r;
      if(!warm) c.check(p.warm.empty(), "warm", "warm start although it was not asked");
      x = Vec::Constant(p.n, 3);
      return ok;
    };
    bool b = s.solve(pb);
    stub::answer() = nullptr;
    c.check(calls == 1 && b == ok, "status", [&] { return cat("solve returned ", b, " after ", calls, " calls"); });
    if(b) c.check((w.x->value() - V({3, 3})).norm() == 0, "answer", "the answer was not given to the variables");
  }
}
} // namespace

int main(int argc, char ** argv)
{
  return run(argc, argv, "C24",
             {{"single", "every task of a palette of 24, every priority, with and without automatic damping, solved three times (one failure), 15 settings of the back-ends", [](Ctx & c) { tasks(c, 1); }, 2},
              {"pairs", "the same with every pair of tasks", [](Ctx & c) { tasks(c, 2); }, 3},
              {"edits", "all sequences of 3 (4) edits of two problems, each followed by no solve, a success or a failure, 15 settings of the back-ends", edits, 4},
              {"shared", "one scheme for two problems: all sequences of 4 (5) edits and solves", shared, 4},
              {"hierarchical", "options of the hierarchical back-end, all sequences of 4 successes and failures", hierarchical, 3}},
             {"The numerical back-ends are stand-ins with the calling conventions of QLD, Quadprog, LSSOL and LexLS; the library's own wrappers are the real code",
              "Where an option damps the quadratic cost, the damping is part of the expected cost",
              "Quadprog with a Cholesky factor needs an objective of full column rank when it has at least as many rows as unknowns",
              "Absolute values above 1e100 count as absent bounds; the values of the variables after a failure are not specified"});
}
