// C18: requirements given or changed in any way have the same effect (pipe_ machinery for the built problems).
#include "history.h"

#include <tvm/requirements/SolvingRequirements.h>

using namespace tvm::requirements;
using tvm::internal::PairElementToken;

namespace
{
// ------------------------------------------------------------------------------------------- one requirement alone
/** Values offered to the setters: the value, and whether it is valid */
template<template<bool> class R>
struct Values;
template<>
struct Values<WeightBase>
{
  using T = double;
  static std::vector<std::pair<T, bool>> all() { return {{2., true}, {0., true}, {0.25, true}, {-1., false}, {-1e-9, false}}; }
  static T def() { return 1.; }
};
template<>
struct Values<PriorityLevelBase>
{
  using T = int;
  static std::vector<std::pair<T, bool>> all() { return {{2, true}, {0, true}, {7, true}, {-1, false}, {-3, false}}; }
  static T def() { return 0; }
};
template<>
struct Values<AnisotropicWeightBase>
{
  using T = Vec;
  static std::vector<std::pair<T, bool>> all()
  { return {{V({2, 3}), true}, {V({0, 1}), true}, {V({1, 2, 3}), true}, {V({1, -2}), false}, {V({-1e-9, 5}), false}}; }
  static T def() { return Vec(); }
};
template<>
struct Values<ViolationEvaluationBase>
{
  using T = ViolationEvaluationType;
  static std::vector<std::pair<T, bool>> all()
  { return {{T::L1, true}, {T::L2, true}, {T::LINF, true}}; }
  static T def() { return T::L2; }
};
template<typename T>
bool same(const T & a, const T & b)
{
  if constexpr(std::is_same_v<T, Vec>)
    return a.size() == b.size() && a == b;
  else
    return a == b;
}
template<typename T>
std::string txt(const T & v)
{
  if constexpr(std::is_same_v<T, Vec>)
    return cat("[", v.transpose(), "]");
  else if constexpr(std::is_enum_v<T>)
    return cat(static_cast<int>(v));
  else
    return cat(v);
}

/** One lightweight and two observed requirements, every setter from and to each */
template<template<bool> class R>
void single(Ctx & c)
{
  using T = typename Values<R>::T;
  auto vals = Values<R>::all();
  struct Model
  {
    T v = Values<R>::def();
    bool def = true;
    int calls = 0;
  };
  Model m[4]; // 0, 1: lightweight; 2, 3: with callbacks
  std::unique_ptr<R<true>> lw[2];
  std::unique_ptr<R<false>> cb[2];
  std::vector<PairElementToken> tokens;
  int calls[4] = {0, 0, 0, 0};
  bool threw = false;
  auto attempt = [&](auto f) {
    threw = false;
    try
    {
      f();
    }
    catch(const std::runtime_error &)
    {
      threw = true;
    }
  };
  // construction
  for(int i = 0; i < 4; ++i)
  {
    int how = i == 1 || i == 3 ? 0 : c.choose(i == 2 ? 3 : 2);
    if(how == 0) // default
    {
      if(i < 2)
        lw[i].reset(new R<true>());
      else
        cb[i - 2].reset(new R<false>());
    }
    else if(how == 1) // from a value
    {
      auto v = c.pick(vals);
      c.step([&] { return cat("construct ", i, " with ", txt(v.first)); });
      attempt([&] {
        if(i < 2)
          lw[i].reset(new R<true>(v.first));
        else
          cb[i - 2].reset(new R<false>(v.first));
      });
      c.check(threw == !v.second, "constructor", [&] { return cat("value ", txt(v.first), threw ? " refused" : " accepted"); });
      if(threw) return;
      m[i].v = v.first;
      m[i].def = false;
    }
    else // conversion
    {
      c.step("construct 2 from 0");
      cb[0].reset(new R<false>(*lw[0]));
      m[2].v = m[0].v;
      m[2].def = m[0].def;
    }
    if(i >= 2) tokens.emplace_back(cb[i - 2]->registerCallback([&calls, i] { ++calls[i]; }));
  }
  auto observe = [&] {
    Hash h;
    for(int i = 0; i < 4; ++i)
    {
      const T & v = i < 2 ? lw[i]->value() : cb[i - 2]->value();
      bool d = i < 2 ? lw[i]->isDefault() : cb[i - 2]->isDefault();
      c.check(same(v, m[i].v), "value", [&] { return cat("requirement ", i, " has value ", txt(v), ", expected ", txt(m[i].v)); });
      c.check(d == m[i].def, "default", [&] { return cat("requirement ", i, " isDefault=", d); });
      c.check(calls[i] == m[i].calls, "listeners", [&] { return cat("listener of requirement ", i, " called ", calls[i], " times, expected ", m[i].calls); });
      h.s(txt(m[i].v)).i(d);
    }
    c.state(h);
  };
  observe();
  int depth = c.thorough ? 4 : 3;
  for(int d = 0; d < depth; ++d)
  {
    int op = c.choose(7);
    if(op == 0) return;
    if(op <= 4) // value setters
    {
      auto v = c.pick(vals);
      int i = (op - 1) % 2 ? 2 : 0;
      bool byValue = op <= 2;
      c.step([&] { return cat("requirement ", i, byValue ? " value(" : " = (", txt(v.first), ")"); });
      attempt([&] {
        if(i < 2)
        {
          if(byValue)
            lw[i]->value(v.first);
          else
            *lw[i] = v.first;
        }
        else
        {
          if(byValue)
            cb[i - 2]->value(v.first);
          else
            *cb[i - 2] = v.first;
        }
      });
      c.check(threw == !v.second, "refusal", [&] { return cat("value ", txt(v.first), threw ? " refused" : " accepted"); });
      if(v.second)
      {
        m[i].v = v.first;
        m[i].def = false;
        if(i >= 2) ++m[i].calls;
      }
    }
    else if(op == 5) // object setters between the two kinds
    {
      int k = c.choose(3);
      static const int from[] = {0, 2, 1}, to[] = {2, 0, 3};
      int a = from[k], b = to[k];
      c.step([&] { return cat("requirement ", b, " = requirement ", a); });
      if(b < 2)
        *lw[b] = *cb[a - 2];
      else
        *cb[b - 2] = *lw[a];
      m[b].v = m[a].v;
      m[b].def = m[a].def;
      if(b >= 2) ++m[b].calls;
    }
    else // lightweight copy, from a variable or a temporary
    {
      c.step("requirement 0 = requirement 1");
      *lw[0] = *lw[1];
      m[0].v = m[1].v;
      m[0].def = m[1].def;
    }
    observe();
  }
}

// --------------------------------------------------------------------------------- constructors of the whole group
void groups(Ctx & c)
{
  int p = c.choose(3) - 1; // -1: not given
  int w = c.choose(3) - 1;
  int a = c.choose(2) - 1;
  int e = c.choose(2) - 1;
  PriorityLevel P(p < 0 ? 0 : p + 1);
  Weight W(w < 0 ? 1. : 2.5 * w);
  AnisotropicWeight A(V({2, 0.5}));
  ViolationEvaluation E(ViolationEvaluationType::L1);
  int order = c.choose(2);
  SolvingRequirements r;
  int mask = (p >= 0) * 8 + (w >= 0) * 4 + (a >= 0) * 2 + (e >= 0);
  c.step([&] { return cat("requirements given: ", mask, " order ", order); });
  switch(mask)
  {
    case 0: break;
    case 1: r = SolvingRequirements(E); break;
    case 2: r = SolvingRequirements(A); break;
    case 3: r = order ? SolvingRequirements(E, A) : SolvingRequirements(A, E); break;
    case 4: r = SolvingRequirements(W); break;
    case 5: r = order ? SolvingRequirements(E, W) : SolvingRequirements(W, E); break;
    case 6: r = order ? SolvingRequirements(A, W) : SolvingRequirements(W, A); break;
    case 7: r = order ? SolvingRequirements(A, E, W) : SolvingRequirements(W, A, E); break;
    case 8: r = SolvingRequirements(P); break;
    case 9: r = order ? SolvingRequirements(E, P) : SolvingRequirements(P, E); break;
    case 10: r = order ? SolvingRequirements(A, P) : SolvingRequirements(P, A); break;
    case 11: r = order ? SolvingRequirements(E, P, A) : SolvingRequirements(P, A, E); break;
    case 12: r = order ? SolvingRequirements(W, P) : SolvingRequirements(P, W); break;
    case 13: r = order ? SolvingRequirements(W, E, P) : SolvingRequirements(P, W, E); break;
    case 14: r = order ? SolvingRequirements(A, P, W) : SolvingRequirements(P, W, A); break;
    case 15: r = order ? SolvingRequirements(E, W, A, P) : SolvingRequirements(P, W, A, E); break;
  }
  auto look = [&](const auto & q, const char * what) {
    c.check(q.priorityLevel().value() == (p < 0 ? 0 : p + 1) && q.priorityLevel().isDefault() == (p < 0), "priority", what);
    c.check(q.weight().value() == (w < 0 ? 1. : 2.5 * w) && q.weight().isDefault() == (w < 0), "weight", what);
    c.check(same(q.anisotropicWeight().value(), a < 0 ? Vec() : V({2, 0.5})) && q.anisotropicWeight().isDefault() == (a < 0), "aniso", what);
    c.check(q.violationEvaluation().value() == (e < 0 ? ViolationEvaluationType::L2 : ViolationEvaluationType::L1)
                && q.violationEvaluation().isDefault() == (e < 0),
            "evaluation", what);
  };
  look(r, "as given");
  SolvingRequirements copy(r);
  look(copy, "copied");
  SolvingRequirementsWithCallbacks cb(r);
  look(cb, "converted");
  tvm::VariablePtr x = tvm::Space(2).createVariable("x");
  tvm::LinearizedControlProblem pb;
  auto tr = pb.add(x == 0., r);
  look(tr->requirements, "in a task");
  c.state(Hash().i(mask).i(p).i(w).i(order));
}

// ------------------------------------------------------------------------------------------------- built problems
/** Every way of giving the requirements of an objective before the first solve must give the same problem */
enum How
{
  AT_CONSTRUCTION,
  VALUE,
  ASSIGN_VALUE,
  ASSIGN_OBJECT,
  N_HOW
};
const char * howName[] = {"at construction", "value()", "= value", "= object"};

struct Setter
{
  tvm::TaskWithRequirementsPtr tr;
  void weight(int how, double w)
  {
    auto & r = tr->requirements.weight();
    if(how == VALUE)
      r.value(w);
    else if(how == ASSIGN_VALUE)
      r = w;
    else
      r = Weight(w);
  }
  void aniso(int how, const Vec & w)
  {
    auto & r = tr->requirements.anisotropicWeight();
    if(how == VALUE)
      r.value(w);
    else if(how == ASSIGN_VALUE)
      r = w;
    else
      r = AnisotropicWeight(w);
  }
  void priority(int how, int p)
  {
    auto & r = tr->requirements.priorityLevel();
    if(how == VALUE)
      r.value(p);
    else if(how == ASSIGN_VALUE)
      r = p;
    else
      r = PriorityLevel(p);
  }
};

void built(Ctx & c, bool priorities)
{
  // all back-ends in the driver of weights; the priorities are handled before the solver is known
  int b = !priorities || c.thorough ? backends(c) : c.pick(std::vector<int>{QLD, LSSOL, LEXLS});
  Problem p;
  setup(p, b, false);
  // a constraint and two or three objectives; one of them has its requirements given in various ways
  std::vector<int> base = {2, 6, 7};
  auto & t = p.it[8]; // 3 rows
  auto & eq = p.it[5]; // 2 rows, identity: a bound when its priority is 0
  Item & it = c.flip() ? t : eq;
  for(int i : base) p.add(static_cast<size_t>(i));
  bool rebuilt = false;
  int m = static_cast<int>(it.l.size());
  int how0 = c.choose(N_HOW);
  double w0 = priorities && !c.thorough ? 4. : c.pick(std::vector<double>{1, 4, 0});
  Vec a0 = c.flip() ? Vec() : Vec(Vec::LinSpaced(m, 1, 4));
  int p0 = priorities ? 1 + c.choose(2) : 1;
  it.weight = w0;
  it.aniso = a0;
  it.priority = p0;
  Setter s;
  if(how0 == AT_CONSTRUCTION)
    it.tr = p.pb.add(it.task(), it.req());
  else
  {
    it.tr = p.pb.add(it.task());
    s.tr = it.tr;
    s.priority(how0, p0);
    s.weight(how0, w0);
    if(a0.size()) s.aniso(how0, a0);
  }
  it.in = true;
  s.tr = it.tr;
  c.step([&] { return cat(it.name, " with weight ", w0, ", anisotropic weight [", a0.transpose(), "], priority ", p0, " given ", howName[how0]); });
  if(c.flip())
  {
    c.step("solve");
    solveAndCompare(c, p, 0);
  }
  int n = c.thorough ? 3 : 2;
  int how = 1;
  for(int i = 0; i < n; ++i)
  {
    int what = c.choose(priorities ? 6 : 4);
    if(i == 0 || c.thorough) how = 1 + c.choose(N_HOW - 1); // quick run: the same way for the two changes
    bool threw = false;
    auto attempt = [&](auto f) {
      try
      {
        f();
      }
      catch(const std::runtime_error &)
      {
        threw = true;
      }
    };
    if(it.priority == 0 && what < 2) c.prune(); // weights do not apply to constraints
    switch(what)
    {
      case 0:
        it.weight = it.weight == 9. ? 0.25 : 9.;
        c.step([&] { return cat("weight ", it.weight, " by ", howName[how]); });
        s.weight(how, it.weight);
        break;
      case 1:
        it.aniso = it.aniso.size() && it.aniso[0] == 4. ? Vec(Vec::LinSpaced(m, 2, 0)) : Vec(Vec::LinSpaced(m, 4, 9));
        c.step([&] { return cat("anisotropic weight [", it.aniso.transpose(), "] by ", howName[how]); });
        s.aniso(how, it.aniso);
        break;
      case 2: // refused
        c.step([&] { return cat("weight -1 by ", howName[how]); });
        attempt([&] { s.weight(how, -1); });
        c.check(threw, "refusal", "negative weight accepted");
        break;
      case 3:
        c.step([&] { return cat("negative anisotropic weight by ", howName[how]); });
        attempt([&] { s.aniso(how, Vec::LinSpaced(m, 1, -1)); });
        c.check(threw, "refusal", "negative anisotropic weight accepted");
        break;
      case 4:
      {
        int q = c.choose(4);
        if(q == it.priority) c.prune();
        it.priority = q;
        rebuilt = true;
        c.step([&] { return cat("priority ", q, " by ", howName[how]); });
        s.priority(how, q);
        break;
      }
      case 5:
        c.step([&] { return cat("priority -1 by ", howName[how]); });
        attempt([&] { s.priority(how, -1); });
        c.check(threw, "refusal", "negative priority accepted");
        break;
    }
    if(i == n - 1 || c.flip())
    {
      c.step("solve");
      solveAndCompare(c, p, 0);
    }
  }
  (void)rebuilt;
  if(c.flip())
  {
    p.remove(static_cast<size_t>(&it - p.it.data()));
    c.step("remove it, solve");
    solveAndCompare(c, p, 0);
  }
}
} // namespace

int main(int argc, char ** argv)
{
  return run(argc, argv, "C18",
             {{"weight", "one weight alone: all ways of constructing it, then all sequences of 3 (4) setters with valid and invalid values", [](Ctx & c) { single<WeightBase>(c); }, 3},
              {"priority", "the same for priority levels", [](Ctx & c) { single<PriorityLevelBase>(c); }, 3},
              {"anisotropic", "the same for anisotropic weights", [](Ctx & c) { single<AnisotropicWeightBase>(c); }, 3},
              {"evaluation", "the same for violation evaluations", [](Ctx & c) { single<ViolationEvaluationBase>(c); }, 3},
              {"groups", "all subsets of the four requirements, in two orders, copied, converted and given to a task", groups, 2},
              {"built", "weights of one objective given in 4 ways, then all sequences of 2 (3) changes, valid or refused, a solve or not after each, and its removal, every back-end", [](Ctx & c) { built(c, false); }, 4},
              {"priorities", "the same with changes of priority (0 to 3) too", [](Ctx & c) { built(c, true); }, 4}},
             {"The numerical back-ends are stand-ins with the calling conventions of QLD, Quadprog, LSSOL and LexLS; the library's own wrappers are the real code",
              "Costs are compared up to a positive factor (the weighted scheme documents that it does not adapt the reference priority when tasks are added)",
              "Weights of tasks of priority 0 are not changed on a built problem (documented as refused)"});
}
