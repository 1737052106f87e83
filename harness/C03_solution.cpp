// C03: solving writes the optimum of the stated problem into the user's variables.
#include "pipe_tasks.h"
using namespace pipe_;
using namespace mc;
using tvm::requirements::PriorityLevel;
using tvm::requirements::SolvingRequirements;
using tvm::requirements::Weight;

namespace
{
void solveAndCheck(Ctx & c, Std & w, tvm::LinearizedControlProblem & pb, tvm::scheme::WeightedLeastSquares & s,
                   const std::vector<Spec> & specs, bool damp, double scal, bool updateBefore)
{
  Canon want = expected(specs, w.N, scal, damp);
  bool hasObj = false;
  for(auto & t : specs) hasObj = hasObj || t.priority > 0;
  Vec best;
  bool feasible = optimum(specs, want, best);
  w.set(Eigen::Map<const Vec>(w.rest.data(), w.N));
  if(updateBefore) pb.update();
  stub::Problem cap;
  bool b = solveExact(w, pb, s, &cap);
  c.check(b == feasible, "status", [&] { return cat("solve returned ", b, ", the problem is ", feasible ? "feasible" : "infeasible"); });
  Vec got = w.get();
  for(int i = 0; i < w.N; ++i)
    if(!want.uses[static_cast<size_t>(i)]) c.check(got[i] == w.rest[static_cast<size_t>(i)], "untouched", [&] { return cat("component ", i, ", which no task uses, was changed"); });
  if(!b) return;
  std::string e = checkSolution(specs, want, got, best, damp && !hasObj);
  if(!e.empty()) e += "; back-end received " + show(cap);
  c.check(e.empty(), "wrong-solution", [&] { return e; });
  c.state(Hash().m(got));
}

void pick(Ctx & c, Std & w, int n, std::vector<Task> & tasks, std::vector<Spec> & specs, std::vector<SolvingRequirements> & reqs)
{
  const auto & pal = palette();
  int prev = -1;
  for(int i = 0; i < n; ++i)
  {
    int left = static_cast<int>(pal.size()) - prev - 1 - (n - 1 - i);
    prev = prev + 1 + c.choose(left);
    const auto & e = pal[static_cast<size_t>(prev)];
    auto t = e.make(w);
    int p = e.ineq ? 0 : c.choose(3);
    t.second.priority = p;
    t.second.weight = p == 2 ? 4 : 1;
    t.second.name = e.name;
    reqs.push_back(p == 2 ? SolvingRequirements(PriorityLevel(p), Weight(4)) : SolvingRequirements(PriorityLevel(p)));
    tasks.push_back(t.first);
    specs.push_back(t.second);
    c.step([&] { return cat("task ", e.name, " priority ", p); });
  }
}

std::vector<Driver> drivers()
{
  std::vector<Driver> d;
  auto combos = [](Ctx & c, int n, int nb) {
    int b = c.choose(nb);
    Std w;
    std::vector<Task> tasks;
    std::vector<Spec> specs;
    std::vector<SolvingRequirements> reqs;
    pick(c, w, n, tasks, specs, reqs);
    bool damp = c.flip();
    bool before = c.flip();
    tvm::LinearizedControlProblem pb;
    for(size_t i = 0; i < tasks.size(); ++i) pb.add(tasks[i], reqs[i]);
    auto s = makeScheme(b, damp, 10);
    solveAndCheck(c, w, pb, *s, specs, damp, 10, before);
  };
  d.push_back({"pairs", "every pair of tasks of the 24-task palette x priorities x damping x update before or within the solve, the 4 back-ends", [=](Ctx & c) { combos(c, 2, 4); }, 3});
  d.push_back({"triples", "every triple of tasks of the palette x priorities x damping x update before or within the solve, back-end chosen by turns (all in thorough)",
               [=](Ctx & c) {
                 combos(c, 3, c.thorough ? 4 : 1);
               }, 3});
  d.push_back({"failure", "the back-end fails or succeeds in every pattern over 4 successive solves of a feasible problem: the value returned follows, success gives the optimum",
               [](Ctx & c) {
                 int b = c.choose(N_BACKENDS);
                 if(b == QUADPROG_CHOL) c.prune();
                 Std w;
                 const auto & pal = palette();
                 tvm::LinearizedControlProblem pb;
                 std::vector<Spec> specs;
                 for(int id : {0, 10, 18, 20})
                 {
                   auto t = pal[static_cast<size_t>(id)].make(w);
                   t.second.priority = id >= 18;
                   pb.add(t.first, {PriorityLevel(t.second.priority)});
                   specs.push_back(t.second);
                 }
                 bool damp = c.flip();
                 auto s = makeScheme(b, damp, 10);
                 for(int k = 0; k < 4; ++k)
                 {
                   if(c.flip())
                   {
                     c.step("solve (back-end fails)");
                     mute();
                     stub::answer() = [](const stub::Problem & p, Vec & x) {
                       x = Vec::Constant(p.n, 77);
                       return false;
                     };
                     bool r = s->solve(pb);
                     stub::answer() = nullptr;
                     c.check(!r, "failure-hidden", [] { return std::string("solve returned true although the back-end reported a failure"); });
                   }
                   else
                   {
                     c.step("solve");
                     solveAndCheck(c, w, pb, *s, specs, damp, 10, c.flip());
                   }
                 }
               }, 3});
  d.push_back({"control-loop", "velocity and acceleration control over every sequence of 3 (thorough: 4) steps: integrate or jump, move the reference, change a gain-free weight; each solve gives the optimum for the present state",
               [](Ctx & c) {
                 int b = c.choose(4);
                 Std w;
                 Mat A = M(2, 2, {1, 1, 0, 2});
                 auto f = std::make_shared<BasicLinearFunction>(A, w.q, V({0, 1}));
                 Mat B = M(1, 2, {1, -2});
                 auto g = std::make_shared<BasicLinearFunction>(B, w.q, V({0}));
                 Vec q = V({0.5, -1.5}), off = V({0, 1}), dq0 = Vec::Constant(2, 0.25);
                 tvm::LinearizedControlProblem pb;
                 auto tf = pb.add(Task(f, Type::EQUAL, tvm::task_dynamics::P(2.), V({1, 1})), {PriorityLevel(1)});
                 pb.add(-3. <= w.q <= 4., tvm::task_dynamics::P(0.5), PriorityLevel(0));
                 bool acc = c.flip();
                 if(acc) pb.add(Task(g, Type::LOWER_THAN, tvm::task_dynamics::PD(4., 3.), V({1})), {PriorityLevel(0)});
                 if(acc) pb.add(w.ddq == 0., tvm::task_dynamics::None(), PriorityLevel(1));
                 auto s = makeScheme(b, false, 10);
                 double wt = 1;
                 for(int k = 0; k < (c.thorough ? 4 : 3); ++k)
                 {
                   Spec s1 = w.spec(Type::EQUAL, {{w.dq, A}}, -2 * (A * q + off - V({1, 1})), Vec());
                   s1.priority = 1;
                   s1.weight = wt;
                   Spec s2 = w.spec(Type::DOUBLE_SIDED, {{w.dq, Mat::Identity(2, 2)}}, -0.5 * (q - V({-3, -3})), -0.5 * (q - V({4, 4})));
                   std::vector<Spec> specs{s1, s2};
                   if(acc)
                   {
                     Vec r = -4 * (B * q - V({1})) - 3 * B * dq0;
                     specs.push_back(w.spec(Type::LOWER_THAN, {{w.ddq, B}}, r, r));
                     Spec s4 = w.spec(Type::EQUAL, {{w.ddq, Mat::Identity(2, 2)}}, V({0, 0}), Vec());
                     s4.priority = 1;
                     specs.push_back(s4);
                   }
                   solveAndCheck(c, w, pb, *s, specs, false, 10, c.flip());
                   Vec v = w.dq->value();
                   switch(c.choose(4))
                   {
                     case 0:
                       q += 0.5 * v;
                       w.q->value(q);
                       c.step([&] { return cat("integrate: q = ", q.transpose()); });
                       break;
                     case 1:
                       q = V({-2.5, 6});
                       w.q->value(q);
                       c.step("q = -2.5 6");
                       break;
                     case 2:
                       off = off[1] == 1 ? V({-1, 3}) : V({0, 1});
                       f->b(off);
                       c.step([&] { return cat("b = ", off.transpose()); });
                       break;
                     case 3:
                       A = A(0, 0) == 1 ? M(2, 2, {2, -1, 1, 1}) : M(2, 2, {1, 1, 0, 2});
                       f->A(A);
                       wt = wt == 1 ? 4 : 1;
                       tf->requirements.weight() = wt;
                       c.step("A and weight changed");
                       break;
                   }
                 }
               }, 3});
  return d;
}
} // namespace
int main(int argc, char ** argv)
{
  return run(argc, argv, "C03", drivers(),
             {"The back-ends are stand-ins that solve exactly (active-set enumeration) the data they receive; the library's own wrappers are the real code"});
}
