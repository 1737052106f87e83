// C25: resolutions leave the allocation mode (utils::set_is_malloc_allowed) as it was, and work in every mode.
#include "history.h" // pipe

#include <tvm/function/IdentityFunction.h>
#include <tvm/scheme/HierarchicalLeastSquares.h>
#include <tvm/solver/LexLSHierarchicalLeastSquareSolver.h>
#include <tvm/task_dynamics/Clamped.h>
#include <tvm/task_dynamics/Constant.h>
#include <tvm/task_dynamics/FeedForward.h>
#include <tvm/task_dynamics/OneStepToZero.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>
#include <tvm/task_dynamics/Reference.h>
#include <tvm/task_dynamics/VelocityDamper.h>
#include <tvm/utils/memoryChecks.h>
using namespace pipe_;
using tvm::VectorConstRef;

namespace
{
/** What the user does around a resolution */
enum Mode
{
  FORBID, // set false
  FORBID_NESTED, // set true, override false ... restore
  ALLOW_NESTED, // set false, override true ... restore
  ALLOW, // set true
  N_MODES
};
const char * modeName(int m)
{
  static const char * n[] = {"allocations forbidden", "allocations forbidden by an override", "allocations allowed by an override", "allocations allowed"};
  return n[m];
}
namespace tu = tvm::utils;

/** Run f in the given mode, and check the mode after it. Whatever happens, allocations are allowed at the end. */
bool inMode(Ctx & c, int m, const std::function<bool()> & f)
{
  bool outer = m == FORBID_NESTED || m == ALLOW, inner = m == ALLOW_NESTED || m == ALLOW;
  bool nested = m == FORBID_NESTED || m == ALLOW_NESTED;
  bool r = false, after = false, restored = false;
  std::exception_ptr ex;
  tu::set_is_malloc_allowed(outer);
  if(nested) tu::override_is_malloc_allowed(inner);
  try
  {
    r = f();
  }
  catch(...)
  {
    ex = std::current_exception();
  }
  after = tu::is_malloc_allowed();
  if(nested) tu::restore_is_malloc_allowed();
  restored = tu::is_malloc_allowed();
  tu::set_is_malloc_allowed(true);
  c.check(after == inner, ex ? "mode-after-refusal" : "mode", [&] { return cat("solved with ", modeName(m), ": afterwards allocations are ", after ? "allowed" : "forbidden", ex ? " (the resolution threw)" : ""); });
  c.check(restored == outer, ex ? "restored-after-refusal" : "restored", [&] { return cat("solved with ", modeName(m), ": once the user's override is removed, allocations are ", restored ? "allowed" : "forbidden", ex ? " (the resolution threw)" : ""); });
  if(ex) std::rethrow_exception(ex);
  return r;
}

/** A problem solved by the weighted scheme (back-end b) or the hierarchical one (b = N_BACKENDS) */
struct Solved
{
  Problem p;
  std::unique_ptr<tvm::scheme::HierarchicalLeastSquares> h;
  Item bad; // inequality the weighted scheme does not accept
  Solved(int b, bool damp)
  {
    if(b == N_BACKENDS)
      h = std::make_unique<tvm::scheme::HierarchicalLeastSquares>(tvm::solver::LexLSHLSSolverOptions().warmStart(damp),
                                                                  tvm::scheme::HierarchicalLeastSquaresOptions().autoDamping(damp));
    else
      setup(p, b, damp);
    bad = paramItem("a y <= 1 at level 2", Type::LOWER_THAN, 2, V({1}), Vec(), [this](int) {
      return std::vector<std::pair<VariablePtr, Mat>>{{p.w.y, M(1, 1, {3})}};
    });
  }
  bool refused() const { return bad.in && !h; }
  void toggleBad(Ctx & c)
  {
    c.step([&] { return (bad.in ? "remove " : "add ") + bad.name; });
    if(bad.in)
      p.pb.remove(*bad.tr);
    else
      bad.tr = p.pb.add(bad.task(), bad.req());
    bad.in = !bad.in;
  }
  void solve(Ctx & c, int m)
  {
    c.step([&] { return cat("solve with ", modeName(m)); });
    aroundSolve() = [&](const std::function<bool()> & f) { return inMode(c, m, f); };
    struct Reset
    {
      ~Reset()
      {
        aroundSolve() = nullptr;
        stub::answer() = nullptr;
      }
    } reset;
    if(refused())
    {
      bool threw = false;
      try
      {
        aroundSolve()([&] { return p.s[0]->solve(p.pb); });
      }
      catch(const mc::Violation &)
      {
        throw;
      }
      catch(const std::exception &)
      {
        threw = true;
      }
      c.check(threw, "accepted", "a problem the scheme cannot solve was accepted");
      return;
    }
    if(!h)
    {
      solveAndCompare(c, p, 0);
      return;
    }
    bool b = inMode(c, m, [&] { return h->solve(p.pb); });
    c.check(b, "status", "solve returned false although the solver succeeded");
    c.state(Hash().m(p.w.get()).i(m));
  }
};

int backend(Ctx & c)
{
  int b = c.choose(N_BACKENDS + 1);
  if(b == QUADPROG_CHOL || b == DEFAULT) c.prune();
  c.step([&] { return std::string(b == N_BACKENDS ? "hierarchical scheme" : backendName(b)); });
  return b;
}

void history(Ctx & c, const std::vector<std::vector<int>> & start, const std::vector<Action> & acts, int n, bool damp, bool refusals)
{
  int b = backend(c);
  if(b == N_BACKENDS && !refusals && acts[0].kind == SUB) c.prune(); // weighted scheme only in this comparison
  Solved s(b, damp);
  auto & p = s.p;
  for(int i : c.pick(start))
  {
    p.add(static_cast<size_t>(i));
    c.step([&] { return "add " + p.it[static_cast<size_t>(i)].name; });
  }
  if(refusals && c.flip()) s.toggleBad(c);
  // The mode of the first resolution, then of all the others: each of them is verified in each mode
  int m1 = c.choose(N_MODES), m2 = c.thorough ? c.choose(N_MODES) : FORBID_NESTED + c.choose(2);
  if(c.flip()) s.solve(c, m1);
  for(int i = 0; i < n; ++i)
  {
    int k = c.choose(static_cast<int>(acts.size()) + 1 + refusals);
    if(k < static_cast<int>(acts.size()))
    {
      const Action & a = acts[static_cast<size_t>(k)];
      if(!p.enabled(a)) c.prune();
      std::string str = p.apply(a);
      c.step(str);
    }
    else if(k == static_cast<int>(acts.size()))
      c.step("no edit");
    else
      s.toggleBad(c);
    if(i == n - 1 || c.flip()) s.solve(c, m2);
  }
}

typedef tvm::task_dynamics::P P;
typedef tvm::task_dynamics::PD PD;
typedef tvm::task_dynamics::VelocityDamper VD;

class Provider : public tvm::graph::abstract::Outputs
{
public:
  SET_OUTPUTS(Provider, Value)
  Provider(int n) : v(Vec::Constant(n, 0.125)) {}
  const Vec & value() const { return v; }
  Vec v;
};

/** One task, whatever its dynamics, function and size */
void dynamics(Ctx & c)
{
  namespace td = tvm::task_dynamics;
  static const int sizes[] = {1, 3, 40};
  int m = sizes[c.choose(3)], form = c.choose(3);
  int ti = c.choose(3), d = c.choose(22), prio = c.choose(2);
  Type t = std::vector<Type>{Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN}[static_cast<size_t>(ti)];
  bool hierarchical = prio == 1 && t != Type::EQUAL;
  int b = hierarchical ? N_BACKENDS : c.choose(N_BACKENDS);
  if(b == QUADPROG_CHOL || b == DEFAULT) c.prune();
  if(b == QLD_CHOL && m == 40) c.prune(); // Eigen's QR of a large matrix allocates
  VariablePtr x = tvm::Space(m).createVariable("x"), y = tvm::Space(m).createVariable("y");
  tvm::FunctionPtr f;
  Mat A = Mat::Identity(m, m);
  if(m > 1) A(0, m - 1) = 2;
  Vec r = Vec::LinSpaced(m, -1, 1);
  switch(form)
  {
    case 0: f = std::make_shared<tvm::function::IdentityFunction>(x); break;
    case 1: f = std::make_shared<tvm::function::BasicLinearFunction>(A, x, r); break;
    case 2: f = std::make_shared<tvm::function::BasicLinearFunction>(std::vector<tvm::MatrixConstRef>{A, -A}, std::vector<VariablePtr>{x, y}, r);
  }
  auto ref = std::make_shared<tvm::function::IdentityFunction>(tvm::Space(m).createVariable("ref"));
  auto p = std::make_shared<Provider>(m);
  auto met = &Provider::value;
  auto sig = Provider::Output::Value;
  Vec g = Vec::Constant(m, 2), h = Vec::Constant(m, 3), lo = -g;
  VectorConstRef lr(lo), hr(h);

  VD::Config conf(2, 1, 1, 0), aut(2, 1, 0, 0.5);
  std::shared_ptr<td::abstract::TaskDynamics> dyn;
  auto set = [&](auto && v) { dyn = std::make_shared<std::decay_t<decltype(v)>>(std::forward<decltype(v)>(v)); };
  switch(d)
  {
    case 0: set(td::None()); break;
    case 1: set(td::Constant()); break;
    case 2: set(P(2.)); break;
    case 3: set(P(g)); break;
    case 4: set(P(A)); break;
    case 5: set(PD(4., 3.)); break;
    case 6: set(PD(4.)); break;
    case 7: set(PD(g, h)); break;
    case 8: set(PD(A, A)); break;
    case 9: set(PD(Vec(2 * g), h)); break;
    case 10: set(PD(A, h)); break;
    case 11: set(PD(g, A)); break;
    case 12: set(td::OneStepToZero(td::Order::One, 0.25)); break;
    case 13: set(td::OneStepToZero(td::Order::Two, 0.25)); break;
    case 14: set(td::ReferenceVelocity(ref)); break;
    case 15: set(td::ReferenceAcceleration(ref)); break;
    case 16: set(VD(conf)); break;
    case 17: set(VD(aut)); break;
    case 18: set(VD(0.25, aut)); break;
    case 19: set(td::Clamped<P>(std::pair<VectorConstRef, VectorConstRef>(lr, hr), 2.)); break;
    case 20: set(td::FeedForward<PD>(p, met, sig, 4., 3.)); break;
    case 21: set(td::Clamped<td::FeedForward<P>>(0.5, p, met, sig, A)); break;
  }
  bool automatic = d == 17 || d == 18;
  if(t == Type::EQUAL && automatic) c.prune();
  Vec rhs = Vec::LinSpaced(m, 0, 1);
  c.step([&] { return cat("function ", form, " of size ", m, ", dynamics ", d, ", type ", ti, ", priority ", prio, " (", hierarchical ? "hierarchical scheme" : backendName(b), ")"); });
  int mode = c.choose(2);
  tvm::LinearizedControlProblem pb;
  auto tr = d == 1 ? pb.add(Task(f, t, *dyn), PriorityLevel(prio)) : pb.add(Task(f, t, *dyn, rhs), PriorityLevel(prio));
  if(d == 0 && form == 2 && t == Type::EQUAL && prio == 0)
  {
    int sub = c.choose(3);
    if(sub) pb.add(Task(std::make_shared<tvm::function::BasicLinearFunction>(A, x, r), Type::EQUAL, td::None(), rhs), PriorityLevel(1));
    if(sub == 2)
    {
      pb.add(tvm::hint::Substitution(pb.constraint(*tr), y));
      c.step("y is substituted");
    }
  }
  std::unique_ptr<tvm::scheme::HierarchicalLeastSquares> hs;
  std::unique_ptr<tvm::scheme::WeightedLeastSquares> ws;
  if(hierarchical)
    hs = std::make_unique<tvm::scheme::HierarchicalLeastSquares>(tvm::solver::LexLSHLSSolverOptions());
  else
    ws = makeScheme(b, false, 10);
  for(int k = 0; k < 3; ++k)
  {
    c.step([&] { return cat("solve with ", modeName(mode)); });
    x->set(Vec::Constant(m, 1.25 + k));
    y->set(Vec::LinSpaced(m, -k, k));
    bool r = inMode(c, mode, [&] { return hs ? hs->solve(pb) : ws->solve(pb); });
    c.check(r, "status", "solve returned false although the solver succeeded");
  }
  c.state(Hash().i(d).i(m).i(form).i(ti).i(prio));
}

/** The records of utils are a stack, of any depth */
void stack(Ctx & c)
{
  std::vector<bool> model;
  bool mode = true;
  tu::set_is_malloc_allowed(true);
  int n = c.thorough ? 8 : 6;
  for(int i = 0; i < n; ++i)
  {
    int k = c.choose(5);
    if(k == 4 && model.empty()) c.prune();
    switch(k)
    {
      case 0:
      case 1:
        c.step([&] { return cat("set ", k == 1); });
        mode = k == 1;
        tu::set_is_malloc_allowed(mode);
        break;
      case 2:
      case 3:
        c.step([&] { return cat("override ", k == 3); });
        model.push_back(mode);
        mode = k == 3;
        tu::override_is_malloc_allowed(mode);
        break;
      case 4:
        c.step("restore");
        mode = model.back();
        model.pop_back();
        tu::restore_is_malloc_allowed();
    }
    bool got = tu::is_malloc_allowed(), eig = Eigen::internal::is_malloc_allowed();
    if(got != mode || eig != mode)
    {
      tu::set_is_malloc_allowed(true);
      c.fail("stack", cat("allocations are ", got ? "allowed" : "forbidden", ", Eigen says ", eig, ", expected ", mode));
    }
  }
  Hash h;
  h.i(mode);
  for(bool b : model) h.i(b);
  while(!model.empty())
  {
    tu::restore_is_malloc_allowed();
    model.pop_back();
  }
  tu::set_is_malloc_allowed(true);
  c.state(h);
}

std::vector<Driver> drivers()
{
  return {
      {"tasks", "every sequence of 2 (thorough: 3) additions, removals, weight and data changes or nothing, from 3 problems, a resolution before or not and after each or not, in every allocation mode, every back-end and the hierarchical scheme",
       [](Ctx & c) {
         static const std::vector<std::vector<int>> start = {{}, {0, 2, 5}, {3, 4, 6, 7}};
         static const std::vector<Action> a = {{TOGGLE, 0}, {TOGGLE, 2}, {TOGGLE, 5}, {TOGGLE, 6}, {TOGGLE, 4}, {WEIGHT, 6}, {ANISO, 6}, {DATA, 6}, {READD, 2}};
         history(c, start, a, c.thorough ? 3 : 2, c.flip(), false);
       }, 5},
      {"substitutions", "the same with substitutions",
       [](Ctx & c) {
         static const std::vector<std::vector<int>> start = {{2, 5, 8, 6}, {0, 2, 9, 5, 7}};
         static const std::vector<Action> a = {{SUB, 2}, {SUB, 9}, {TOGGLE, 2}, {TOGGLE, 6}, {DATA, 2}};
         history(c, start, a, c.thorough ? 3 : 2, false, false);
       }, 5},
      {"refused", "the same with a task the weighted scheme refuses, added before the first resolution or later, removed or not",
       [](Ctx & c) {
         static const std::vector<std::vector<int>> start = {{}, {0, 2, 5}};
         static const std::vector<Action> a = {{TOGGLE, 2}, {TOGGLE, 5}, {DATA, 2}};
         history(c, start, a, c.thorough ? 3 : 2, false, true);
       }, 5},
      {"dynamics", "one task: 3 functions x 3 sizes x 22 dynamics x 3 types x objective or constraint, every back-end, solved 3 times while allocations are forbidden", dynamics, 4},
      {"stack", "every sequence of 6 (thorough: 8) changes of mode, overrides and restorations", stack, 2}};
}
} // namespace
int main(int argc, char ** argv)
{
  return run(argc, argv, "C25", drivers(),
             {"The numerical back-ends are stand-ins which may allocate in every mode; the library's own wrappers are the real code",
              "Eigen is compiled with EIGEN_RUNTIME_NO_MALLOC: an allocation of an Eigen object while it is forbidden aborts, and is reported",
              "The Cholesky options of QLD and Quadprog are used on small problems only (the QR decomposition of Eigen allocates for the large ones)",
              "The functions of the user do not allocate when they are updated"});
}
