// C19: a refused operation on a problem leaves the problem as it was.
#include "hier.h" // pipe
#include "history.h"

#include <tvm/task_dynamics/None.h>

namespace
{
/** What a user sees of a problem */
struct Snapshot
{
  std::vector<const tvm::TaskWithRequirements *> tasks;
  int size;
  std::set<const void *> constraints;
  std::vector<std::pair<std::vector<const void *>, std::vector<const void *>>> subs;
  std::vector<const void *> vars;
  bool operator==(const Snapshot & o) const { return tasks == o.tasks && size == o.size && constraints == o.constraints && subs == o.subs && vars == o.vars; }
};
Snapshot snapshot(const tvm::LinearizedControlProblem & pb)
{
  Snapshot s;
  for(auto & t : pb.tasks()) s.tasks.push_back(t.get());
  s.size = pb.size();
  for(auto & cs : pb.constraints()) s.constraints.insert(cs.constraint.get());
  for(auto & u : pb.substitutions().substitutions())
  {
    s.subs.emplace_back();
    for(auto & x : u.constraints()) s.subs.back().first.push_back(x.get());
    for(auto & x : u.variables()) s.subs.back().second.push_back(x.get());
  }
  tvm::VariableVector vars = pb.variables();
  for(auto & v : vars.variables()) s.vars.push_back(v.get());
  std::sort(s.vars.begin(), s.vars.end());
  return s;
}

template<class F>
bool throws(F && f, std::string & what)
{
  try
  {
    f();
  }
  catch(const mc::Prune &)
  {
    throw;
  }
  catch(const std::exception & e)
  {
    what = e.what();
    return true;
  }
  return false;
}

/** Function which is not linear in its variable */
struct Nonlinear : public tvm::function::abstract::Function
{
  SET_UPDATES(Nonlinear, Value)
  Nonlinear(VariablePtr v, VariablePtr lin = nullptr) : Function(1)
  {
    if(lin) addVariable(lin, true);
    addVariable(v, false);
  }
};
/** The user's own dynamics */
struct Custom : public tvm::task_dynamics::abstract::TaskDynamics
{
  struct Impl : public tvm::task_dynamics::abstract::TaskDynamicsImpl
  {
    Impl(tvm::FunctionPtr f, Type t, const Vec & rhs) : TaskDynamicsImpl(tvm::task_dynamics::Order::Zero, f, t, rhs) {}
    void updateValue() override { value_ = rhs(); }
  };
  std::unique_ptr<tvm::task_dynamics::abstract::TaskDynamicsImpl> impl_(tvm::FunctionPtr f, Type t, const Vec & rhs) const override { return std::make_unique<Impl>(f, t, rhs); }
  tvm::task_dynamics::Order order_() const override { return tvm::task_dynamics::Order::Zero; }
};

enum F
{
  // refused by the operation itself
  F_NONLINEAR,
  F_NONLINEAR2,
  F_REMOVE_NONSIMPLE,
  F_SUB_INEQ,
  F_SUB_FOREIGN,
  F_SUB_RANK,
  // refused by the next solve
  F_INEQ_P1,
  F_PRIO_INEQ,
  F_WEIGHT0,
  F_ANISO0,
  F_L1,
  F_ANISO_SIZE,
  F_UPDATE,
  F_SUB_SINGULAR,
  F_SUB_PART,
  F_TASK_PART,
  F_SUB_OVERLAP,
  N_F
};
const char * name(int f)
{
  static const char * n[] = {"task on a function that is not linear",
                             "task on a function that is linear in one of its variables only",
                             "removal of a task of a substitution of two variables",
                             "substitution through an inequality",
                             "substitution of a variable that the task does not use",
                             "substitution with a rank larger than the variable",
                             "inequality of priority 1",
                             "priority 1 for an inequality",
                             "weight for a task of priority 0",
                             "anisotropic weight for a task of priority 0",
                             "task with L1 evaluation",
                             "anisotropic weight of a wrong size",
                             "user's function that raises an exception",
                             "substitution with a singular matrix",
                             "substitution of a variable a part of which is used",
                             "task on a part of a substituted variable",
                             "substitutions of a variable and of a part of it"};
  return n[f];
}

struct P19 : Problem
{
  int fault = -1;
  std::shared_ptr<tvm::hint::Substitution> pair; // of y and z, through 2 and 9
  bool inPlace = false;
  int budget = 0; // number of other changes still possible

  P19()
  {
    auto k = [](int d) { return d == 0 ? 1. : -2.; };
    // 11: equality to substitute x
    it.push_back(paramItem("A x + y == [1;2]", Type::EQUAL, 0, V({1, 2}), Vec(), [this, k](int d) {
      return std::vector<std::pair<VariablePtr, Mat>>{{w.x, M(2, 2, {1, 0, k(d), 3})}, {w.y, M(2, 1, {1, 2})}};
    }));
    // 12: refused at priority 1
    it.push_back(identityItem("x0 >= -0.75 (p1)", w.x0, Type::GREATER_THAN, 1, V({-0.75}), Vec()));
    it.push_back(identityItem("y == 0.25 (p1, L1)", w.y, Type::EQUAL, 1, V({0.25}), Vec()));
    // 14: equality to substitute a part of x
    it.push_back(identityItem("x0 == 0.25", w.x0, Type::EQUAL, 0, V({0.25}), Vec()));
    sub.resize(it.size());
  }
  bool hasPair() const { return pair != nullptr; }

  bool enabled(int f)
  {
    switch(f)
    {
      case F_REMOVE_NONSIMPLE:
        return it[2].in && it[9].in && !sub[2] && !sub[9];
      case F_SUB_INEQ:
      case F_PRIO_INEQ:
        return it[4].in;
      case F_SUB_FOREIGN:
      case F_SUB_RANK:
      case F_WEIGHT0:
      case F_ANISO0:
      case F_UPDATE:
        return it[2].in;
      case F_SUB_SINGULAR:
        return it[2].in && !sub[2];
      case F_ANISO_SIZE:
        return it[5].in;
      case F_SUB_PART:
        return it[1].in && it[11].in;
      case F_TASK_PART:
        return !it[1].in && it[11].in;
      case F_SUB_OVERLAP:
        return !it[1].in && it[11].in;
    }
    return true;
  }
  /** The refused operation, when it is refused at once */
  void operation(int f)
  {
    switch(f)
    {
      case F_NONLINEAR:
        pb.add(Task(std::make_shared<Nonlinear>(w.y), Type::EQUAL, Custom(), 0.), {PriorityLevel(1)});
        break;
      case F_NONLINEAR2:
        pb.add(Task(std::make_shared<Nonlinear>(w.y, w.z), Type::LOWER_THAN, Custom(), 0.), {PriorityLevel(0)});
        break;
      case F_REMOVE_NONSIMPLE:
        pb.remove(*it[2].tr);
        break;
      case F_SUB_INEQ:
        pb.add(tvm::hint::Substitution(pb.constraint(*it[4].tr), w.z));
        break;
      case F_SUB_FOREIGN:
        pb.add(tvm::hint::Substitution(pb.constraint(*it[2].tr), w.z));
        break;
      case F_SUB_RANK:
        pb.add(tvm::hint::Substitution(pb.constraint(*it[2].tr), w.y, 2));
        break;
    }
  }
  /** The operation that makes the solve be refused */
  void introduce(int f)
  {
    fault = f;
    inPlace = true;
    switch(f)
    {
      case F_INEQ_P1:
        add(12);
        break;
      case F_PRIO_INEQ:
        it[4].tr->requirements.priorityLevel() = 1;
        break;
      case F_WEIGHT0:
        it[2].tr->requirements.weight() = 4.;
        break;
      case F_ANISO0:
        it[2].tr->requirements.anisotropicWeight() = V({4});
        break;
      case F_L1:
        it[13].tr = pb.add(it[13].task(), {PriorityLevel(1), tvm::requirements::ViolationEvaluation(tvm::requirements::ViolationEvaluationType::L1)});
        it[13].in = true;
        break;
      case F_ANISO_SIZE:
        it[5].tr->requirements.anisotropicWeight() = V({1, 2, 3});
        break;
      case F_UPDATE:
        static_cast<ParamFunction &>(*it[2].f).fail = true;
        break;
      case F_SUB_SINGULAR:
        static_cast<ParamFunction &>(*it[2].f).data[1].second(0, 0) = 0; // y has no effect
        sub[2] = std::make_shared<tvm::hint::Substitution>(pb.constraint(*it[2].tr), w.y);
        pb.add(*sub[2]);
        break;
      case F_SUB_OVERLAP:
        add(14);
        sub[14] = std::make_shared<tvm::hint::Substitution>(pb.constraint(*it[14].tr), w.x0);
        pb.add(*sub[14]);
        [[fallthrough]];
      case F_SUB_PART:
      case F_TASK_PART:
        sub[11] = std::make_shared<tvm::hint::Substitution>(pb.constraint(*it[11].tr), w.x);
        pb.add(*sub[11]);
        break;
    }
  }
  int corrections(int f)
  {
    switch(f)
    {
      case F_ANISO_SIZE:
      case F_UPDATE:
      case F_SUB_PART:
        return 2;
      case F_TASK_PART:
        return 2;
      case F_SUB_SINGULAR:
      case F_WEIGHT0:
      case F_ANISO0:
        return 3;
    }
    return 2;
  }
  std::string correct(int f, int k)
  {
    inPlace = false;
    switch(f)
    {
      case F_INEQ_P1:
        if(k == 0)
        {
          remove(12);
          return "remove the task";
        }
        it[12].priority = 0;
        it[12].tr->requirements.priorityLevel() = 0;
        return "priority 0 for the task";
      case F_PRIO_INEQ:
        if(k == 0)
        {
          it[4].tr->requirements.priorityLevel() = 0;
          return "priority back to 0";
        }
        remove(4);
        return "remove the task";
      case F_WEIGHT0:
      case F_ANISO0:
        if(k == 0) return "nothing (the refusal drops the change)";
        if(k == 1)
        {
          remove(2);
          return "remove the task";
        }
        if(f == F_WEIGHT0)
          it[2].tr->requirements.weight() = 1.;
        else
          it[2].tr->requirements.anisotropicWeight() = V({1});
        return "previous weight";
      case F_L1:
        if(k == 0)
        {
          remove(13);
          return "remove the task";
        }
        it[13].tr->requirements.violationEvaluation() = tvm::requirements::ViolationEvaluationType::L2;
        return "L2 evaluation";
      case F_ANISO_SIZE:
        if(k == 0)
        {
          it[5].aniso = V({4, 0.25});
          it[5].tr->requirements.anisotropicWeight() = it[5].aniso;
          return "correct size";
        }
        remove(5);
        return "remove the task";
      case F_UPDATE:
        static_cast<ParamFunction &>(*it[2].f).fail = false;
        if(k == 0) return "the function does not fail any more";
        remove(2);
        return "remove the task";
      case F_SUB_SINGULAR:
        static_cast<ParamFunction &>(*it[2].f).data[1].second(0, 0) = 3;
        if(k == 0) return "regular matrix";
        if(k == 1)
        {
          pb.remove(*sub[2]);
          sub[2].reset();
          return "remove the substitution";
        }
        remove(2);
        return "remove the task";
      case F_SUB_OVERLAP:
      case F_SUB_PART:
        if(k == 0)
        {
          pb.remove(*sub[11]);
          sub[11].reset();
          return "remove the substitution";
        }
        remove(f == F_SUB_OVERLAP ? 14 : 1);
        return "remove the task on the part";
      case F_TASK_PART:
        if(k == 0)
        {
          remove(1);
          return "remove the task on the part";
        }
        pb.remove(*sub[11]);
        sub[11].reset();
        return "remove the substitution";
    }
    return "";
  }
  bool legit(int f) const { return f == F_WEIGHT0 || f == F_ANISO0; }
  /** items of the actions around the fault */
  bool free(const Action & a, int f) const
  {
    switch(f)
    {
      case F_REMOVE_NONSIMPLE:
        return a.item != 2 && a.item != 9;
      case F_SUB_SINGULAR:
      case F_UPDATE:
      case F_WEIGHT0:
      case F_ANISO0:
        return a.item != 2;
      case F_ANISO_SIZE:
        return a.item != 5;
      case F_PRIO_INEQ:
        return a.item != 4;
      case F_SUB_PART:
      case F_TASK_PART:
      case F_SUB_OVERLAP:
        return a.item != 1 && a.item != 11;
    }
    return true;
  }
};

/** A solve which must be refused */
bool refusedSolve(Ctx & c, P19 & p, int f, int k = 0)
{
  Snapshot before = snapshot(p.pb);
  std::string what;
  bool solved = false;
  bool t = throws(
      [&] {
        mute();
        observe(p.w, p.pb, *p.s[k], true);
        solved = true;
      },
      what);
  c.step([&] { return cat("solve (", backendName(p.backend[k]), "): ", t ? "refused: " + what.substr(0, 80) : std::string("not refused")); });
  if(!p.legit(f)) c.check(t, "not-refused", [&] { return cat("a solve that must be refused (", name(f), ") is accepted"); });
  c.check(snapshot(p.pb) == before, "changed", [&] { return std::string("the refused solve changed the tasks, constraints or substitutions of the problem"); });
  return t;
}

const std::vector<Action> ACTIONS = {{TOGGLE, 0}, {TOGGLE, 3}, {TOGGLE, 6}, {TOGGLE, 8}, {WEIGHT, 5}, {ANISO, 6}, {DATA, 2}, {DATA, 4}, {PRIO, 6}, {READD, 5}};

/** at most n actions */
void action(Ctx & c, P19 & p, int f, int n)
{
  for(int i = 0; i < n && p.budget > 0; ++i)
  {
    int a = c.choose(static_cast<int>(ACTIONS.size()) + 1);
    if(a == 0) return;
    const Action & ac = ACTIONS[static_cast<size_t>(a - 1)];
    if(!p.Problem::enabled(ac) || !p.free(ac, f)) c.prune();
    --p.budget;
    std::string s = p.apply(ac);
    c.step(s);
  }
}

const std::vector<std::vector<int>> INITIAL = {{2, 4, 5, 1, 11}, {2, 9, 4, 5, 6}, {11, 5, 2}};

void refused(Ctx & c, int first, int last)
{
  int f = first + c.choose(last - first);
  P19 p;
  p.budget = c.thorough ? 3 : 2;
  int b = std::vector<int>{QLD, LSSOL, LEXLS, QUADPROG}[static_cast<size_t>(c.choose(c.thorough ? 4 : last == N_F ? 1 : 2))];
  setup(p, b, false);
  c.step([&] { return std::string(backendName(b)); });
  auto & init = INITIAL[static_cast<size_t>(c.choose(static_cast<int>(INITIAL.size())))];
  for(int i : init) p.add(static_cast<size_t>(i));
  c.step([&] {
    std::string s;
    for(int i : init) s += " [" + p.it[static_cast<size_t>(i)].name + "]";
    return "add" + s;
  });
  if(!p.enabled(f)) c.prune();
  bool built = c.flip();
  if(built)
  {
    c.step("solve");
    solveAndCompare(c, p, 0);
  }
  if(f == F_WEIGHT0 || f == F_ANISO0 || f == F_ANISO_SIZE)
    if(!built) c.prune(); // weights are only refused when they change

  bool atOnce = f < F_INEQ_P1;
  if(atOnce)
  {
    if(f == F_REMOVE_NONSIMPLE)
    {
      auto v = std::vector<tvm::LinearConstraintPtr>{p.pb.constraint(*p.it[2].tr), p.pb.constraint(*p.it[9].tr)};
      p.pair = std::make_shared<tvm::hint::Substitution>(v, std::vector<VariablePtr>{p.w.y, p.w.z});
      p.pb.add(*p.pair);
      p.sub[4] = p.pair; // solutions are compared
      c.step("substitution of y and z");
      if(c.flip())
      {
        c.step("solve");
        solveAndCompare(c, p, 0);
      }
    }
    action(c, p, f, 1);
    Snapshot before = snapshot(p.pb);
    std::string what;
    bool t = throws([&] { p.operation(f); }, what);
    c.step([&] { return cat(name(f), ": ", what.substr(0, 80)); });
    c.check(t, "not-refused", [&] { return cat(name(f), " is accepted"); });
    c.check(snapshot(p.pb) == before, "changed", [&] { return cat("refused: ", name(f), "; the tasks, constraints or substitutions of the problem changed"); });
    if(f == F_REMOVE_NONSIMPLE && c.flip())
    {
      c.step("remove the substitution, then the task");
      p.pb.remove(*p.pair);
      p.sub[4].reset();
      p.remove(2);
    }
  }
  else
  {
    if(f == F_TASK_PART)
    {
      p.introduce(f);
      c.step("substitution of x");
      if(c.flip())
      {
        c.step("solve");
        solveAndCompare(c, p, 0);
      }
      action(c, p, f, 1);
      p.add(1);
    }
    else
    {
      action(c, p, f, 1);
      p.introduce(f);
    }
    c.step([&] { return cat(name(f)); });
    action(c, p, f, 1);
    bool attempt = c.flip();
    bool wasRefused = attempt && refusedSolve(c, p, f);
    if(!attempt && p.legit(f)) c.prune(); // the refusal is still to come
    if(attempt && c.flip())
    {
      if(p.legit(f))
        c.prune();
      refusedSolve(c, p, f);
    }
    int k = c.choose(p.corrections(f));
    if(p.legit(f) && !wasRefused && k == 2) c.prune(); // the previous weight would be refused next
    std::string s = p.correct(f, k);
    c.step(s);
  }
  action(c, p, f, 2);
  c.step("solve");
  solveAndCompare(c, p, 0);
  action(c, p, f, 1);
  c.step("solve");
  solveAndCompare(c, p, 0);
}
/** Hierarchical scheme */
void levels(Ctx & c)
{
  Std w;
  hier::Options o;
  o.feasible = c.flip();
  o.damping = o.warm = !o.feasible;
  c.step([&] { return o.show(); });
  tvm::LinearizedControlProblem pb;
  struct It
  {
    Task t;
    Spec s;
    tvm::TaskWithRequirementsPtr tr;
  };
  std::vector<It> it;
  for(int id : {0, 12, 14, 20})
  {
    auto t = palette()[static_cast<size_t>(id)].make(w);
    it.push_back({t.first, t.second, nullptr});
  }
  auto faulty = std::make_shared<ParamFunction>(1);
  faulty->var(w.vars[1], Mat::Constant(1, w.vars[1]->size(), 2));
  faulty->rhs = V({0.5});
  {
    Spec s;
    s.name = "user's function";
    s.J = Mat::Zero(1, w.N);
    s.uses.assign(static_cast<size_t>(w.N), false);
    for(int i = 0; i < w.vars[1]->size(); ++i)
    {
      s.J(0, w.off.at(w.vars[1].get()) + i) = 2;
      s.uses[static_cast<size_t>(w.off.at(w.vars[1].get()) + i)] = true;
    }
    s.l = s.u = V({0.5});
    it.push_back({Task(faulty, Type::EQUAL, tvm::task_dynamics::None(), 1.), s, nullptr});
  }
  auto s = hier::scheme(o);
  auto solve = [&] {
    std::vector<Spec> v;
    for(auto & t : it)
      if(t.tr) v.push_back(t.s);
    c.step("solve");
    hier::solveAndCheck(c, w, pb, *s, v, o);
  };
  auto add = [&](It & t) { t.tr = t.s.aniso.size() ? pb.add(t.t, {PriorityLevel(t.s.priority), Weight(t.s.weight), AnisotropicWeight(t.s.aniso)}) : pb.add(t.t, {PriorityLevel(t.s.priority), Weight(t.s.weight)}); };
  auto remove = [&](It & t) {
    auto r = t.tr;
    t.tr.reset();
    pb.remove(*r);
  };
  int budget = c.thorough ? 3 : 2;
  auto actions = [&](int n, size_t avoid) {
    for(int k = 0; k < n && budget > 0; ++k)
    {
      int a = c.choose(10);
      if(a == 0) return;
      --budget;
      size_t i = static_cast<size_t>(a - 1) % 3;
      auto & t = it[i];
      if(i == avoid) c.prune();
      switch((a - 1) / 3)
      {
        case 0:
          c.step([&] { return cat(t.tr ? "remove task " : "add task ", i); });
          if(t.tr)
            remove(t);
          else
            add(t);
          break;
        case 1:
          if(!t.tr) c.prune();
          t.s.weight = t.s.weight == 1 ? 4 : 1;
          c.step([&] { return cat("weight ", t.s.weight, " for task ", i); });
          t.tr->requirements.weight() = t.s.weight;
          break;
        case 2:
          if(!t.tr) c.prune();
          t.s.priority = (t.s.priority + 1) % 3;
          c.step([&] { return cat("priority ", t.s.priority, " for task ", i); });
          t.tr->requirements.priorityLevel() = t.s.priority;
          break;
      }
    }
  };
  it[3].s.priority = 2;
  it[4].s.priority = c.choose(2);
  it[1].s.priority = 1;
  it[1].s.aniso = Vec::LinSpaced(it[1].s.J.rows(), 1, 4);
  for(size_t i : {0u, 1u, 3u, 4u}) add(it[i]);
  c.step([&] { return cat("tasks 0, 1 (level 1), 3 (level 2), function (level ", it[4].s.priority, ")"); });
  bool built = c.flip();
  if(built) solve();
  actions(1, 9);
  int f = c.choose(4);
  size_t avoid = f == 1 ? 1 : 9;
  tvm::TaskWithRequirementsPtr l1;
  switch(f)
  {
    case 0:
      c.step("task with L1 evaluation");
      l1 = pb.add(Task(std::make_shared<tvm::function::IdentityFunction>(w.vars[0]), Type::EQUAL, tvm::task_dynamics::None(), 0.), {PriorityLevel(1), tvm::requirements::ViolationEvaluation(tvm::requirements::ViolationEvaluationType::L1)});
      break;
    case 1:
      if(!it[1].tr) c.prune();
      c.step("anisotropic weight of a wrong size for task 1");
      it[1].tr->requirements.anisotropicWeight() = Vec::Ones(it[1].s.J.rows() + 1);
      break;
    case 2:
      c.step("the user's function fails");
      faulty->fail = true;
      break;
    case 3:
    {
      Snapshot before = snapshot(pb);
      std::string what;
      bool t = throws([&] { pb.add(Task(std::make_shared<Nonlinear>(w.vars[0], w.vars[1]), Type::LOWER_THAN, Custom(), 0.), {PriorityLevel(0)}); }, what);
      c.step([&] { return "task on a function that is not linear: " + what; });
      c.check(t, "not-refused", "accepted");
      c.check(snapshot(pb) == before, "changed", "the refused addition changed the problem");
    }
  }
  actions(1, avoid);
  if(f != 3)
    for(int k = 0; k < 2; ++k)
    {
      if(!c.flip()) break;
      Snapshot before = snapshot(pb);
      std::string what;
      bool t = throws(
          [&] {
            mute();
            stub::answer() = [&](const stub::Problem & q, Vec & x) {
              x.setZero(q.n);
              return true;
            };
            s->solve(pb);
          },
          what);
      stub::answer() = nullptr;
      c.step([&] { return cat("solve: ", t ? "refused: " + what.substr(0, 80) : std::string("not refused")); });
      c.check(t, "not-refused", "a solve that must be refused is accepted");
      c.check(snapshot(pb) == before, "changed", "the refused solve changed the problem");
    }
  switch(f)
  {
    case 0:
      if(c.flip())
      {
        c.step("remove the task");
        pb.remove(*l1);
      }
      else
      {
        c.step("L2 evaluation");
        l1->requirements.violationEvaluation() = tvm::requirements::ViolationEvaluationType::L2;
        Spec sp;
        int n = w.vars[0]->size(), st = w.off.at(w.vars[0].get());
        sp.J = Mat::Zero(n, w.N);
        sp.uses.assign(static_cast<size_t>(w.N), false);
        for(int i = 0; i < n; ++i)
        {
          sp.J(i, st + i) = 1;
          sp.uses[static_cast<size_t>(st + i)] = true;
        }
        sp.l = sp.u = Vec::Zero(n);
        sp.priority = 1;
        it.push_back({Task(faulty, Type::EQUAL, tvm::task_dynamics::None(), 1.), sp, l1});
      }
      break;
    case 1:
      if(c.flip())
      {
        c.step("remove the task");
        remove(it[1]);
      }
      else
      {
        c.step("correct size");
        it[1].s.aniso = Vec::LinSpaced(it[1].s.J.rows(), 9, 4);
        it[1].tr->requirements.anisotropicWeight() = it[1].s.aniso;
      }
      break;
    case 2:
      faulty->fail = false;
      if(c.flip())
      {
        c.step("remove the task");
        remove(it[4]);
      }
      else
        c.step("the function works again");
      break;
  }
  actions(2, 9);
  solve();
  actions(1, 9);
  solve();
}
} // namespace

int main(int argc, char ** argv)
{
  return run(argc, argv, "C19",
             {{"operations", "operations refused at once (6 kinds), in histories with other changes before and after", [](Ctx & c) { refused(c, 0, F_INEQ_P1); }, 4},
              {"solves", "solves refused for 11 reasons, with changes before, between and after, every way of correcting", [](Ctx & c) { refused(c, F_INEQ_P1, N_F); }, 5},
              {"levels", "hierarchical scheme: 4 kinds of refusals with changes before, between and after, every way of correcting", levels, 5}},
             {"The numerical back-ends are stand-ins (see /verif/stubs); the library's own wrappers and schemes are the real code"});
}
