// Problems edited through their lifetime, with their mathematical statement (shared by several checks).
#pragma once
#include "pipe_tasks.h"

#include <tvm/hint/Substitution.h>
using namespace pipe_;
using namespace mc;
using tvm::requirements::AnisotropicWeight;
using tvm::requirements::PriorityLevel;
using tvm::requirements::SolvingRequirements;
using tvm::requirements::Weight;

namespace
{
/** Linear function whose data come from outside, through registered updates (so that they only reach the constraint if
 * the problem's update plan covers it). */
class ParamFunction : public tvm::function::abstract::LinearFunction
{
public:
  SET_UPDATES(ParamFunction, Data)
  ParamFunction(int m) : LinearFunction(m) { init(); }
  void init()
  {
    registerUpdates(Update::Data, &ParamFunction::updateData);
    addOutputDependency<ParamFunction>(Output::Jacobian, Update::Data);
    addOutputDependency<ParamFunction>(Output::B, Update::Data);
  }
  void var(VariablePtr v, const Mat & A)
  {
    addVariable(v, true);
    data.emplace_back(v, A);
  }
  void updateData()
  {
    ++calls;
    if(fail) throw std::runtime_error("the user's function fails");
    for(auto & [v, A] : data) jacobian_[v.get()] = A;
    b_ = rhs;
  }
  std::vector<std::pair<VariablePtr, Mat>> data;
  Vec rhs;
  int calls = 0;
  bool fail = false;
};

struct W : World
{
  VariablePtr x, y, z, x0;
  std::map<tvm::Variable *, int> off;
  W()
  {
    x = add("x", 2);
    y = add("y", 1);
    z = add("z", 1);
    x0 = x->subvariable(1, "x0", tvm::Space(0));
    for(size_t i = 0; i < vars.size(); ++i) off[vars[i].get()] = start[i];
    off[x0.get()] = 0;
  }
};

struct Item
{
  std::string name;
  tvm::FunctionPtr f;
  Type type;
  Vec l, u;
  int priority = 0;
  double weight = 1;
  Vec aniso;
  int variant = 0; // data variant
  std::function<std::vector<std::pair<VariablePtr, Mat>>(int)> blocks; // mathematics, per data variant
  std::function<Vec(int)> b;
  std::function<void(int)> apply; // change the data of f
  tvm::TaskWithRequirementsPtr tr;
  bool in = false;

  Task task() const
  {
    if(type == Type::DOUBLE_SIDED) return Task(f, type, tvm::task_dynamics::None(), l, u);
    return Task(f, type, tvm::task_dynamics::None(), l);
  }
  SolvingRequirements req() const
  {
    if(aniso.size()) return {PriorityLevel(priority), Weight(weight), AnisotropicWeight(aniso)};
    return {PriorityLevel(priority), Weight(weight)};
  }
  Spec spec(const W & w) const
  {
    Spec s;
    s.name = name;
    s.type = type;
    s.J = Mat::Zero(l.size(), w.N);
    s.uses.assign(static_cast<size_t>(w.N), false);
    for(auto & [v, A] : blocks(variant))
    {
      int o = w.off.at(v.get());
      s.J.block(0, o, l.size(), v->size()) += A;
      for(int i = 0; i < v->size(); ++i) s.uses[static_cast<size_t>(o + i)] = true;
    }
    Vec off = b(variant);
    s.l = l - off;
    s.u = type == Type::DOUBLE_SIDED ? Vec(u - off) : s.l;
    if(type == Type::GREATER_THAN) s.u = Vec::Constant(l.size(), oo);
    if(type == Type::LOWER_THAN) s.l = Vec::Constant(l.size(), -oo);
    s.priority = priority;
    s.weight = weight;
    s.aniso = aniso;
    return s;
  }
};

Item paramItem(const std::string & name, Type t, int prio, Vec l, Vec u, std::function<std::vector<std::pair<VariablePtr, Mat>>(int)> blocks)
{
  Item it;
  it.name = name;
  it.type = t;
  it.priority = prio;
  it.l = l;
  it.u = u;
  int m = static_cast<int>(l.size());
  auto f = std::make_shared<ParamFunction>(m);
  it.blocks = blocks;
  for(auto & [v, A] : blocks(0)) f->var(v, A);
  it.b = [m](int v) { return Vec(Vec::Constant(m, v == 0 ? 0.5 : -1.25)); };
  f->rhs = it.b(0);
  auto * p = f.get();
  it.apply = [p, blocks, b = it.b](int v) {
    auto bl = blocks(v);
    for(size_t i = 0; i < bl.size(); ++i) p->data[i].second = bl[i].second;
    p->rhs = b(v);
  };
  it.f = f;
  return it;
}

Item identityItem(const std::string & name, VariablePtr v, Type t, int prio, Vec l, Vec u)
{
  Item it;
  it.name = name;
  it.type = t;
  it.priority = prio;
  it.l = l;
  it.u = u;
  it.f = std::make_shared<tvm::function::IdentityFunction>(v);
  int m = v->size();
  it.blocks = [v, m](int) { return std::vector<std::pair<VariablePtr, Mat>>{{v, Mat::Identity(m, m)}}; };
  it.b = [m](int) { return Vec(Vec::Zero(m)); };
  it.apply = [](int) {};
  return it;
}

std::vector<Item> items(W & w)
{
  std::vector<Item> v;
  auto k = [](int d) { return d == 0 ? 1. : -2.; };
  // 0..1 bounds
  v.push_back(identityItem("[-1;-2] <= x <= [3;4]", w.x, Type::DOUBLE_SIDED, 0, V({-1, -2}), V({3, 4})));
  v.push_back(identityItem("x0 >= -0.5", w.x0, Type::GREATER_THAN, 0, V({-0.5}), Vec()));
  // 2..4 general constraints
  v.push_back(paramItem("a x + y == 1", Type::EQUAL, 0, V({1}), Vec(), [&w, k](int d) {
    return std::vector<std::pair<VariablePtr, Mat>>{{w.x, M(1, 2, {k(d), 2})}, {w.y, M(1, 1, {3})}};
  }));
  v.push_back(paramItem("-2 <= a y + z <= 5", Type::DOUBLE_SIDED, 0, V({-2}), V({5}), [&w, k](int d) {
    return std::vector<std::pair<VariablePtr, Mat>>{{w.y, M(1, 1, {k(d)})}, {w.z, M(1, 1, {1})}};
  }));
  v.push_back(paramItem("A x + z <= [4;6] (2 rows)", Type::LOWER_THAN, 0, V({4, 6}), Vec(), [&w, k](int d) {
    return std::vector<std::pair<VariablePtr, Mat>>{{w.x, M(2, 2, {1, k(d), 0, 1})}, {w.z, M(2, 1, {2, -1})}};
  }));
  // 5..8 objectives
  v.push_back(identityItem("x == [2;1] (p1)", w.x, Type::EQUAL, 1, V({2, 1}), Vec()));
  v.push_back(paramItem("A y + B z == [1;2] (p2)", Type::EQUAL, 2, V({1, 2}), Vec(), [&w, k](int d) {
    return std::vector<std::pair<VariablePtr, Mat>>{{w.y, M(2, 1, {k(d), 1})}, {w.z, M(2, 1, {1, -1})}};
  }));
  v.push_back(paramItem("z == 1 (p1)", Type::EQUAL, 1, V({1}), Vec(), [&w, k](int d) {
    return std::vector<std::pair<VariablePtr, Mat>>{{w.z, M(1, 1, {k(d)})}};
  }));
  v.push_back(paramItem("A x + B y == [0;1;2] (p1)", Type::EQUAL, 1, V({0, 1, 2}), Vec(), [&w, k](int d) {
    return std::vector<std::pair<VariablePtr, Mat>>{{w.x, M(3, 2, {1, 0, k(d), 1, 0, 2})}, {w.y, M(3, 1, {1, 1, -1})}};
  }));
  // 9: equality bound, 10: bound on y
  v.push_back(identityItem("z == 0.5", w.z, Type::EQUAL, 0, V({0.5}), Vec()));
  v.push_back(identityItem("y <= 2.5", w.y, Type::LOWER_THAN, 0, V({2.5}), Vec()));
  return v;
}

enum Kind
{
  TOGGLE,
  WEIGHT,
  ANISO,
  DATA,
  SUB, // toggle of substitution of y (k=0) / z (k=1) / x-part through item i
  PRIO, // next priority
  READD // remove and add again the same item
};
struct Action
{
  Kind kind;
  int item;
};

struct Problem
{
  W w;
  std::vector<Item> it;
  tvm::LinearizedControlProblem pb;
  bool reuse = false; // add back the same TaskWithRequirements
  std::vector<std::shared_ptr<tvm::hint::Substitution>> sub;
  std::vector<int> subItem;
  std::unique_ptr<tvm::scheme::WeightedLeastSquares> s[2];
  int backend[2] = {0, 0};
  bool damp = false;
  int minPrio = 1; // least priority given by PRIO

  Problem() : it(items(w)), sub(it.size()) {}
  void add(size_t i)
  {
    auto & t = it[i];
    if(reuse && t.tr)
      pb.add(t.tr);
    else
      t.tr = pb.add(t.task(), t.req());
    t.in = true;
  }
  void remove(size_t i)
  {
    auto & t = it[i];
    t.in = false;
    sub[i].reset();
    if(reuse)
      pb.remove(*t.tr);
    else
    {
      auto & r = *t.tr;
      t.tr.reset(); // the problem is the only owner
      pb.remove(r);
    }
  }
  VariablePtr subVar(size_t i) { return i == 2 ? w.y : i == 9 ? w.z : w.z; }
  bool enabled(const Action & a)
  {
    auto & t = it[static_cast<size_t>(a.item)];
    switch(a.kind)
    {
      case TOGGLE:
        return true;
      case WEIGHT:
      case ANISO:
        return t.in && t.priority > 0;
      case DATA:
        return true;
      case READD:
      case PRIO:
        return t.in;
      case SUB:
        return t.in;
    }
    return false;
  }
  std::string apply(const Action & a)
  {
    auto i = static_cast<size_t>(a.item);
    auto & t = it[i];
    switch(a.kind)
    {
      case TOGGLE:
        if(t.in)
        {
          remove(i);
          return "remove " + t.name;
        }
        add(i);
        return "add " + t.name;
      case READD:
        remove(i);
        add(i);
        return "remove and add back " + t.name;
      case WEIGHT:
        t.weight = t.weight == 1. ? 9. : t.weight == 9. ? 0.25 : 1.;
        t.tr->requirements.weight() = t.weight;
        return mc::cat("weight of ", t.name, " = ", t.weight);
      case PRIO:
        t.priority = t.priority == 3 ? minPrio : t.priority + 1;
        t.tr->requirements.priorityLevel() = t.priority;
        return mc::cat("priority of ", t.name, " = ", t.priority);
      case ANISO: {
        Vec n(t.l.size());
        bool first = t.aniso.size() == 0 || t.aniso[0] == 16;
        for(int k = 0; k < n.size(); ++k) n[k] = first ? 4. + k : 16. / (1 + k);
        t.aniso = n;
        t.tr->requirements.anisotropicWeight() = n;
        return mc::cat("anisotropic weight of ", t.name, " = ", n.transpose());
      }
      case DATA:
        t.variant = 1 - t.variant;
        t.apply(t.variant);
        return "change data of " + t.name;
      case SUB:
        if(sub[i])
        {
          pb.remove(*sub[i]);
          sub[i].reset();
          return "remove substitution through " + t.name;
        }
        sub[i] = std::make_shared<tvm::hint::Substitution>(pb.constraint(*t.tr), subVar(i));
        pb.add(*sub[i]);
        return "add substitution through " + t.name;
    }
    return "";
  }
  std::vector<Spec> specs() const
  {
    std::vector<Spec> s;
    for(auto & t : it)
      if(t.in) s.push_back(t.spec(w));
    return s;
  }
  bool hasSub() const
  {
    for(auto & x : sub)
      if(x) return true;
    return false;
  }
};

void solveAndCompare(Ctx & c, Problem & p, int k)
{
  auto specs = p.specs();
  Canon want = expected(specs, p.w.N, 10, p.damp);
  if(p.hasSub())
  {
    // the data have less unknowns: compare solutions (objectives and constraints, the optimum being unique or not)
    p.w.set(Vec::Constant(p.w.N, 0.375));
    bool b = solveExact(p.w, p.pb, *p.s[k]);
    Vec best;
    bool feasible = optimum(specs, want, best);
    c.check(b == feasible, "status", [&] { return cat("solve returned ", b, ", the problem is ", feasible ? "feasible" : "infeasible"); });
    if(!b) return;
    Vec got = p.w.get();
    std::string e = checkSolution(specs, want, got, best, false);
    c.check(e.empty(), "wrong-solution", [&] { return e; });
    for(int i = 0; i < p.w.N; ++i)
      if(!want.uses[static_cast<size_t>(i)]) c.check(got[i] == 0.375, "untouched", [&] { return cat("component ", i, ", which no task uses, was changed"); });
    c.state(Hash().m(got).i(static_cast<int64_t>(specs.size())));
    return;
  }
  Observation o = observe(p.w, p.pb, *p.s[k]);
  c.check(o.bad.empty(), "bad-call", [&] { return o.bad; });
  c.check(o.solved, "status", [&] { return std::string("solve returned false although the solver succeeded"); });
  if(specs.empty())
  {
    for(bool t : o.touched) c.check(!t, "untouched", [] { return std::string("a variable was changed by an empty problem"); });
    return;
  }
  c.check(o.called, "solver-not-called", [&] { return std::string("the numerical solver was not called"); });
  std::string d = compare(o.canon, want, false);
  c.check(d.empty(), "data", [&] { return std::string(backendName(p.backend[k])) + ": " + d + " raw " + show(o.p); });
  if(o.p.nObjRows >= 0) c.check(o.p.nObjRows == want.nObjRows, "row-count", [&] { return cat("solver received ", o.p.nObjRows, " objective rows, the problem has ", want.nObjRows); });
  c.state(Hash().m(o.canon.Q).m(o.canon.c).i(static_cast<int64_t>(o.canon.hs.size())));
}

/** All sequences of n actions, with or without a solve after each but the last. */
void history(Ctx & c, Problem & p, const std::vector<Action> & acts, int n, bool twoSchemes)
{
  auto solve = [&] {
    int k = twoSchemes ? c.choose(2) : 0;
    c.step([&] { return cat("solve (", backendName(p.backend[k]), ")"); });
    solveAndCompare(c, p, k);
  };
  for(int i = 0; i < n; ++i)
  {
    const Action & a = acts[static_cast<size_t>(c.choose(static_cast<int>(acts.size())))];
    if(!p.enabled(a)) c.prune();
    std::string s = p.apply(a);
    c.step(s);
    if(i == n - 1 || c.flip()) solve();
  }
}

void initial(Ctx & c, Problem & p, const std::vector<int> & in, bool twoSchemes)
{
  for(int i : in)
  {
    p.add(static_cast<size_t>(i));
    c.step([&] { return "add " + p.it[static_cast<size_t>(i)].name; });
  }
  c.step("solve");
  solveAndCompare(c, p, 0);
  if(twoSchemes && c.flip()) solveAndCompare(c, p, 1);
}

int backends(Ctx & c)
{
  int b = c.choose(N_BACKENDS);
  if(b == QUADPROG_CHOL || b == DEFAULT) c.prune(); // rank condition / same as one of the others
  return b;
}
void setup(Problem & p, int b, bool damp)
{
  p.backend[0] = b;
  p.damp = damp;
  p.s[0] = makeScheme(b, damp, 10);
}

} // namespace
