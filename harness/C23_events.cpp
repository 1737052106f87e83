// C23: accumulated problem changes reduce to their net effect.
#include "pipe.h"

#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/scheme/internal/ProblemComputationData.h>
#include <tvm/scheme/internal/ResolutionSchemeBase.h>
#include <tvm/solver/abstract/LeastSquareSolver.h>
#include <tvm/solver/internal/SolverEvents.h>
#include <tvm/solver/LSSOLLeastSquareSolver.h>
#include <tvm/solver/LexLSLeastSquareSolver.h>
#include <tvm/solver/QLDLeastSquareSolver.h>
#include <tvm/solver/QuadprogLeastSquareSolver.h>

#include <list>

using namespace pipe_;
using namespace mc;
using namespace tvm;
using tvm::constraint::Type;
using tvm::solver::internal::SolverEvents;
using Evt = scheme::internal::ProblemDefinitionEvent;
using ET = Evt::Type;

namespace
{
using LC = LinearConstraintPtr;
using BLC = constraint::BasicLinearConstraint;
using Reqs = std::shared_ptr<requirements::SolvingRequirementsWithCallbacks>;

LC lc(int m, VariablePtr x, const Mat & A, Type t, Vec b = Vec())
{
  if(!b.size()) b = Vec::Ones(m);
  if(t == Type::DOUBLE_SIDED)
  {
    return std::make_shared<BLC>(std::vector<MatrixConstRef>{A}, std::vector<VariablePtr>{x}, -b, b);
  }
  auto r = std::make_shared<BLC>(A, x, b, t);
  if(A.isIdentity()) r->A(A, {tvm::internal::MatrixProperties::IDENTITY});
  return r;
}

/** What must be found for one category: the items whose presence changed. */
template<typename List, typename Get>
void net(Ctx & c, const char * what, const std::vector<bool> & before, const std::vector<bool> & now,
         const std::vector<std::shared_ptr<void>> & items, const List & added, const List & removed, Get get)
{
  for(size_t i = 0; i < items.size(); ++i)
  {
    long a = 0, r = 0;
    for(auto & e : added) a += static_cast<void *>(get(e)) == items[i].get();
    for(auto & e : removed) r += static_cast<void *>(get(e)) == items[i].get();
    c.check(a == (!before[i] && now[i]), "net", [&] {
      return cat(what, " ", i, " listed ", a, " times as added, was ", before[i] ? "in" : "out", ", is ", now[i] ? "in" : "out");
    });
    c.check(r == (before[i] && !now[i]), "net", [&] {
      return cat(what, " ", i, " listed ", r, " times as removed, was ", before[i] ? "in" : "out", ", is ", now[i] ? "in" : "out");
    });
  }
  auto count = [&](const std::vector<bool> & v, const std::vector<bool> & w) {
    size_t n = 0;
    for(size_t i = 0; i < v.size(); ++i) n += v[i] && !w[i];
    return n;
  };
  c.check(added.size() == count(now, before) && removed.size() == count(before, now), "extra", [&] { return cat(what, ": foreign element listed"); });
}

// every category alone (cat 0-3) or all together (cat 4), items in or out at first
void lists(Ctx & c, int category)
{
  static VariablePtr X = Space(2).createVariable("x");
  const int nItems = category == 4 ? 1 : 2;
  const int first = category == 4 ? 0 : category, last = category == 4 ? 3 : category;
  std::vector<std::shared_ptr<void>> items[4];
  std::vector<LC> cs[3];
  std::vector<VariablePtr> vs;
  for(int k = 0; k < 3; ++k)
    for(int i = 0; i < nItems; ++i)
    {
      cs[k].push_back(lc(2, X, Mat::Identity(2, 2), i == 0 ? Type::EQUAL : Type::GREATER_THAN));
      items[k].push_back(cs[k].back());
    }
  for(int i = 0; i < nItems; ++i)
  {
    vs.push_back(Space(1).createVariable(cat("v", i)));
    items[3].push_back(vs.back());
  }
  Reqs req[2] = {std::make_shared<requirements::SolvingRequirementsWithCallbacks>(requirements::PriorityLevel(1)),
                 std::make_shared<requirements::SolvingRequirementsWithCallbacks>(requirements::PriorityLevel(2))};
  std::vector<bool> before[4], now[4];
  for(int k = 0; k < 4; ++k)
    for(int i = 0; i < nItems; ++i) before[k].push_back(k >= first && k <= last && c.flip());
  for(int k = 0; k < 4; ++k) now[k] = before[k];
  c.step([&] {
    std::string s = "initially in:";
    for(int k = first; k <= last; ++k)
      for(int i = 0; i < nItems; ++i)
        if(before[k][static_cast<size_t>(i)]) s += cat(" ", k, "/", i);
    return s;
  });
  SolverEvents se;
  std::map<LC, std::pair<bool, bool>> weights;
  std::map<LC, std::pair<Reqs, double>> data; // of the objectives added
  bool cancelled = false;
  std::vector<bool> everToggled(static_cast<size_t>(nItems), false);
  auto observe = [&] {
    net(c, "constraint", before[0], now[0], items[0], se.addedConstraints(), se.removedConstraints(), [](auto & p) { return p.get(); });
    net(c, "bound", before[1], now[1], items[1], se.addedBounds(), se.removedBounds(), [](auto & p) { return p.get(); });
    std::vector<LC> obj;
    for(auto & o : se.addedObjectives()) obj.push_back(o.c);
    net(c, "objective", before[2], now[2], items[2], obj, se.removedObjectives(), [](auto & p) { return p.get(); });
    for(auto & o : se.addedObjectives())
      c.check(o.req == data[o.c].first && o.scalarizationWeight == data[o.c].second, "objective", "requirements of an added objective are not those of its last addition");
    net(c, "variable", before[3], now[3], items[3], se.addedVariables(), se.removedVariables(), [](auto & p) { return p.get(); });
    c.check(se.hasHiddenVariableChange() == cancelled, "hidden", [&] { return cat("hidden variable change reported: ", se.hasHiddenVariableChange()); });
    c.check(se.weightEvents().size() == weights.size(), "weights", [&] { return cat(se.weightEvents().size(), " weight events, expected ", weights.size()); });
    for(auto & w : se.weightEvents())
    {
      bool found = false;
      for(auto & p : weights)
        if(p.first.get() == w.c)
        {
          found = true;
          c.check(w.scalar == p.second.first && w.vector == p.second.second, "weights", "kinds of weights changed are wrong");
        }
      c.check(found, "weights", "weight event of an unrelated constraint");
    }
    Hash h;
    for(int k = 0; k < 4; ++k)
      for(int i = 0; i < nItems; ++i) h.i(before[k][static_cast<size_t>(i)]).i(now[k][static_cast<size_t>(i)]);
    h.i(cancelled);
    for(auto & o : se.addedObjectives()) h.d(o.scalarizationWeight);
    for(auto & p : cs)
      for(auto & q : p) h.i(weights.count(q) ? 1 + weights[q].first * 2 + weights[q].second : 0);
    c.state(h);
  };
  observe();
  int depth = category == 4 ? (c.thorough ? 6 : 5) : (category == 2) ? (c.thorough ? 7 : 5) : (c.thorough ? 10 : 8);
  for(int d = 0; d < depth; ++d)
  {
    bool withWeights = category == 2 || category == 4;
    int nToggle = (last - first + 1) * nItems;
    int op = c.choose(1 + nToggle + (withWeights ? 2 * nItems : 0));
    if(op == 0) return;
    --op;
    if(op < nToggle)
    {
      int k = first + op / nItems;
      size_t i = static_cast<size_t>(op % nItems);
      bool in = now[k][i];
      c.step([&] { return cat(in ? "remove " : "add ", k, "/", i); });
      if(k == 3 && now[3][i] != before[3][i]) cancelled = true;
      now[k][i] = !in;
      switch(k)
      {
        case 0: in ? se.removeConstraint(cs[0][i]) : se.addConstraint(cs[0][i]); break;
        case 1: in ? se.removeBound(cs[1][i]) : se.addBound(cs[1][i]); break;
        case 2:
          if(in)
            se.removeObjective(cs[2][i]);
          else
          {
            // an objective added back in the solver keeps what it had; a new one may come with anything
            int v = before[2][i] ? 0 : c.choose(2);
            data[cs[2][i]] = {req[v], v + 1.};
            se.addObjective({cs[2][i], req[v], v + 1.});
          }
          break;
        case 3: in ? se.removeVariable(vs[i]) : se.addVariable(vs[i]); break;
      }
    }
    else
    {
      op -= nToggle;
      size_t i = static_cast<size_t>(op / 2);
      c.step([&] { return cat(op % 2 ? "vector" : "scalar", " weight of objective ", i); });
      if(op % 2)
      {
        se.addVectorWeightEvent(cs[2][i].get());
        weights[cs[2][i]].second = true;
      }
      else
      {
        se.addScalarWeightEvent(cs[2][i].get());
        weights[cs[2][i]].first = true;
      }
    }
    observe();
  }
}

// ------------------------------------------------------------------------------------- handed to a real solver
std::unique_ptr<solver::abstract::LeastSquareSolver> makeSolver(int b)
{
  using namespace tvm::solver;
  switch(b)
  {
    case QLD: return QLDLSSolverFactory(QLDLSSolverOptions()).createSolver();
    case QUADPROG: return QuadprogLSSolverFactory(QuadprogLSSolverOptions()).createSolver();
    case LSSOL: return LSSOLLSSolverFactory(LSSOLLSSolverOptions()).createSolver();
    default: return LexLSLSSolverFactory(LexLSLSSolverOptions()).createSolver();
  }
}

struct Piece
{
  LC c;
  int kind; // 0: constraint, 1: bound, 2: objective
  VariablePtr v;
  Reqs req;
  bool in = false;
};

/** Several batches of changes sent to one solver, which then receives the same problem as a new solver does. */
void apply(Ctx & c)
{
  mute();
  int backend = c.choose(4);
  VariablePtr x = Space(2).createVariable("x"), y = Space(1).createVariable("y");
  std::vector<Piece> P;
  auto piece = [&](int kind, LC l, VariablePtr v, double w = 1) {
    Piece p;
    p.c = l;
    p.kind = kind;
    p.v = v;
    p.req = std::make_shared<requirements::SolvingRequirementsWithCallbacks>(requirements::PriorityLevel(kind == 2 ? 1 : 0), requirements::Weight(w));
    P.push_back(p);
  };
  auto R = [](int r, int k, double s) {
    Mat m(r, k);
    for(int i = 0; i < r; ++i)
      for(int j = 0; j < k; ++j) m(i, j) = s * (1 + i) + (i == j ? 2 : j);
    return m;
  };
  piece(2, lc(2, x, R(2, 2, 1), Type::EQUAL), x, 2);
  piece(0, lc(1, x, R(1, 2, -1), Type::EQUAL), x);
  piece(0, lc(2, x, R(2, 2, 3), Type::GREATER_THAN), x);
  piece(0, lc(1, y, R(1, 1, 1), Type::DOUBLE_SIDED), y);
  piece(1, lc(1, y, Mat::Identity(1, 1), Type::LOWER_THAN), y);
  piece(2, lc(3, y, R(3, 1, .5), Type::EQUAL), y, 3);
  const size_t n = P.size();
  int initial = c.choose(3);
  const std::vector<std::vector<size_t>> start = {{}, {0, 2, 4}, {0, 1, 2, 3, 4, 5}};
  for(size_t i : start[static_cast<size_t>(initial)]) P[i].in = true;

  tvm::internal::VariableCountingVector vars(true);
  auto build = [&](solver::abstract::LeastSquareSolver & s, const tvm::internal::VariableCountingVector & v) {
    int nObj = 0, nEq = 0, nIneq = 0, nB = 0;
    for(auto & p : P)
      if(p.in)
      {
        if(p.kind == 2) nObj += p.c->size();
        if(p.kind == 1) ++nB;
        if(p.kind == 0) (p.c->isEquality() ? nEq : nIneq) += s.constraintSize(*p.c);
      }
    s.startBuild(v.variables(), nObj, nEq, nIneq, nB > 0);
    for(auto & p : P)
      if(p.in)
      {
        if(p.kind == 0) s.addConstraint(p.c);
        if(p.kind == 1) s.addBound(p.c);
        if(p.kind == 2) s.addObjective(p.c, p.req, 1);
      }
    s.finalizeBuild();
  };
  auto canon = [&](solver::abstract::LeastSquareSolver & s, const tvm::internal::VariableCountingVector & v) {
    stub::Problem got;
    stub::answer() = [&](const stub::Problem & p, Vec & r) {
      got = flatten(p);
      r = Vec::Zero(p.n);
      return true;
    };
    s.solve();
    stub::answer() = nullptr;
    c.check(got.misuse.empty(), "misuse", [&] { return got.misuse; });
    std::vector<int> col;
    for(auto & vi : v.variables().variables())
      for(int i = 0; i < vi->size(); ++i) col.push_back(vi == x ? i : 2);
    c.check(static_cast<int>(col.size()) == got.n, "columns", [&] { return cat("solver has ", got.n, " unknowns for ", col.size()); });
    return translate(got, col, 3);
  };

  for(auto & p : P)
    if(p.in) vars.add(p.v);
  auto s = makeSolver(backend);
  build(*s, vars);
  c.step([&] { return cat(backendName(backend), ", start ", initial); });

  // an objective must remain (least squares), the rest is free
  auto same = [&] {
    bool objective = P[0].in || P[5].in;
    if(!objective) return;
    auto fresh = makeSolver(backend);
    tvm::internal::VariableCountingVector fv(true);
    for(auto & p : P)
      if(p.in) fv.add(p.v);
    build(*fresh, fv);
    c.step("solve");
    Canon a = canon(*s, vars), b = canon(*fresh, fv);
    std::string d = compare(a, b, true);
    c.check(d.empty(), "problem", [&] { return cat(d, "\nafter the changes:\n", show(a), "\nnew solver:\n", show(b)); });
  };
  same();
  int batches = 2;
  for(int b = 0; b < batches; ++b)
  {
    SolverEvents se;
    int len = c.choose(c.thorough ? 5 - b : 4 - b);
    std::vector<double> w0;
    std::vector<bool> in0;
    for(auto & p : P) in0.push_back(p.in);
    for(int k = 0; k < len; ++k)
    {
      int op = c.choose(static_cast<int>(n) + 1);
      if(op == static_cast<int>(n))
      {
        Piece & p = P[5];
        if(!p.in) c.prune();
        p.req->weight().value(p.req->weight().value() + 1);
        c.step("change the weight of 5");
        se.addScalarWeightEvent(p.c.get());
        continue;
      }
      Piece & p = P[static_cast<size_t>(op)];
      p.in = !p.in;
      c.step([&] { return cat(p.in ? "add " : "remove ", op); });
      if(p.in)
      {
        if(vars.add(p.v)) se.addVariable(p.v);
        if(p.kind == 0) se.addConstraint(p.c);
        if(p.kind == 1) se.addBound(p.c);
        if(p.kind == 2) se.addObjective({p.c, p.req, 1});
      }
      else
      {
        if(vars.remove(*p.v)) se.removeVariable(p.v);
        if(p.kind == 0) se.removeConstraint(p.c);
        if(p.kind == 1) se.removeBound(p.c);
        if(p.kind == 2) se.removeObjective(p.c);
      }
    }
    if(vars.variables().totalSize() == 0) c.prune();
    vars.variables();
    s->process(se);
    same();
    Hash h;
    h.i(backend).i(b);
    for(auto & p : P) h.i(p.in).d(p.req->weight().value());
    c.state(h);
    if(len == 0) return;
  }
}

// ------------------------------------------------------------------------------------- queues of the problems
struct Data : public scheme::internal::ProblemComputationData
{
  explicit Data(int id) : ProblemComputationData(id) {}

protected:
  void setVariablesToSolution_(tvm::internal::VariableCountingVector &) override {}
};
struct Known // what a receiver knows about a task it was told of
{
  double weight;
  double aniso;
  int priority;
  bool operator==(const Known & o) const { return weight == o.weight && aniso == o.aniso && priority == o.priority; }
};
using Knowledge = std::map<const void *, Known>;
Known know(const TaskWithRequirements & t)
{
  return {t.requirements.weight().value(), t.requirements.anisotropicWeight().value().size() ? t.requirements.anisotropicWeight().value()[0] : 0, t.requirements.priorityLevel().value()};
}
struct Probe
{
  int i;
  int id() const { return i; }
  Knowledge * knowledge = nullptr;
  template<typename Pb>
  std::unique_ptr<scheme::internal::ProblemComputationData> createComputationData(const Pb & p) const
  {
    for(auto & t : p.tasks()) (*knowledge)[t.get()] = know(*t);
    return std::make_unique<Data>(i);
  }
};

void queues(Ctx & c)
{
  VariablePtr x = Space(1).createVariable("x");
  LinearizedControlProblem pb[2];
  std::vector<TaskWithRequirementsPtr> tr;
  for(int i = 0; i < 2; ++i)
    tr.push_back(std::make_shared<TaskWithRequirements>(Task(x >= 0., task_dynamics::None()), requirements::SolvingRequirements(requirements::PriorityLevel(1), requirements::AnisotropicWeight(Vec::Ones(1)))));
  // receivers: scheme 0 on each problem, scheme 1 on the first one
  struct Receiver
  {
    int p, sch;
    Knowledge k;
    bool attached = false;
    const void * data = nullptr;
  };
  std::vector<Receiver> rec = {{0, 0, {}}, {0, 1, {}}, {1, 0, {}}};
  auto in = [&](int p, int t) {
    for(auto & q : pb[p].tasks())
      if(q == tr[static_cast<size_t>(t)]) return true;
    return false;
  };
  auto process = [&](Receiver & r) {
    auto * d = scheme::internal::getComputationData(pb[r.p], Probe{r.sch, &r.k});
    if(r.attached)
      c.check(d == r.data, "data", "the data of the scheme was replaced");
    r.attached = true;
    r.data = d;
    std::string log;
    while(d->hasEvents())
    {
      size_t before = d->events().size();
      auto front = d->events().front();
      auto e = d->popEvent();
      c.check(e.type() == front.type() && e.emitter() == front.emitter() && d->events().size() == before - 1, "queue", "not first in, first out");
      log += cat(" ", static_cast<int>(e.type()), "/", e.emitter() == tr[0].get() ? 0 : 1);
      bool known = r.k.count(e.emitter());
      switch(e.type())
      {
        case ET::TaskAddition:
          c.check(!known, "twice", [&] { return cat("addition of a task the receiver has;", log); });
          r.k[e.emitter()] = know(e.typedEmitter<ET::TaskAddition>());
          break;
        case ET::TaskRemoval:
          c.check(known, "removal", [&] { return cat("removal of a task the receiver does not have;", log); });
          r.k.erase(e.emitter());
          break;
        case ET::WeightChange:
          c.check(known, "unknown", [&] { return cat("weight change of a task the receiver does not have;", log); });
          r.k[e.emitter()].weight = e.typedEmitter<ET::WeightChange>().requirements.weight().value();
          break;
        case ET::AnisotropicWeightChange:
          c.check(known, "unknown", [&] { return cat("weight change of a task the receiver does not have;", log); });
          r.k[e.emitter()].aniso = know(e.typedEmitter<ET::AnisotropicWeightChange>()).aniso;
          break;
        case ET::PriorityChange: // a rebuild: may remain after the removal of the task
          if(known) r.k[e.emitter()].priority = know(e.typedEmitter<ET::PriorityChange>()).priority;
          break;
        default:
          c.fail("type", "unexpected event");
      }
    }
    Knowledge truth;
    for(auto & t : pb[r.p].tasks()) truth[t.get()] = know(*t);
    c.check(r.k == truth, "knowledge", [&] { return cat("receiver ", r.sch, " of problem ", r.p, " ends with ", r.k.size(), " tasks or wrong requirements, after", log); });
    d->clearEvents();
    c.check(!d->hasEvents(), "clear", "events after clear");
  };
  // the initial tasks
  int init = 2 * c.choose(2);
  for(int t = 0; t < init; ++t) pb[0].add(tr[static_cast<size_t>(t)]);
  c.step([&] { return cat(init, " tasks in problem 0"); });
  process(rec[0]);
  process(rec[2]);
  int depth = c.thorough ? 6 : 5;
  for(int d = 0; d < depth; ++d)
  {
    int op = c.choose(5);
    if(op == 0) break;
    if(op == 1)
    {
      int p = c.choose(2), t = c.choose(2);
      bool i = in(p, t);
      c.step([&] { return cat(i ? "remove task " : "add task ", t, i ? " from problem " : " to problem ", p); });
      if(i)
        pb[p].remove(*tr[static_cast<size_t>(t)]);
      else
        pb[p].add(tr[static_cast<size_t>(t)]);
    }
    else if(op == 2 || op == 3)
    {
      int t = c.choose(2);
      auto & r = tr[static_cast<size_t>(t)]->requirements;
      int kind = op == 2 ? 0 : 1 + c.choose(2);
      c.step([&] { return cat("change ", kind == 0 ? "weight" : kind == 1 ? "anisotropic weight" : "priority", " of task ", t); });
      if(kind == 0) r.weight().value(r.weight().value() + 1);
      if(kind == 1) r.anisotropicWeight().value(Vec::Constant(1, r.anisotropicWeight().value()[0] + 1));
      if(kind == 2) r.priorityLevel().value(r.priorityLevel().value() % 2 + 1);
    }
    else
    {
      int k = c.choose(3);
      c.step([&] { return cat("scheme ", rec[static_cast<size_t>(k)].sch, " of problem ", rec[static_cast<size_t>(k)].p, " processes its events"); });
      process(rec[static_cast<size_t>(k)]);
    }
    Hash h;
    for(auto & r : rec)
    {
      h.i(r.attached);
      for(auto & t : tr)
        if(r.k.count(t.get())) h.d(r.k[t.get()].weight).d(r.k[t.get()].aniso).i(r.k[t.get()].priority);
        else h.i(-1);
      if(r.attached)
        for(auto & e : scheme::internal::getComputationData(pb[r.p], Probe{r.sch, &r.k})->events()) h.i(static_cast<int>(e.type())).i(e.emitter() == tr[0].get());
    }
    for(auto & t : tr) h.d(t->requirements.weight().value());
    c.state(h);
  }
  c.step("all process their events");
  for(auto & r : rec) process(r);
}
} // namespace

int main(int argc, char ** argv)
{
  return run(argc, argv, "C23",
             {{"constraints", "all sequences of up to 8 (10) additions and removals of 2 constraints, in or out at first", [](Ctx & c) { lists(c, 0); }, 2},
              {"bounds", "the same for bounds", [](Ctx & c) { lists(c, 1); }, 2},
              {"objectives", "all sequences of up to 5 (7) changes of 2 objectives, with changes of scalar and vector weights", [](Ctx & c) { lists(c, 2); }, 3},
              {"variables", "the same for variables, with the hidden change flag", [](Ctx & c) { lists(c, 3); }, 2},
              {"mixed", "all sequences of up to 5 (6) changes of any kind over one item of each kind", [](Ctx & c) { lists(c, 4); }, 5},
              {"apply", "two batches of up to 3 then 2 (4 then 3) changes over 6 elements handed to each of four real solver wrappers, from 3 starting problems, compared to a new solver", apply, 4},
              {"queues", "all sequences of up to 5 (6) additions, removals, requirement changes and processings over 2 tasks shared by 2 problems with 3 receivers; what each receiver learns is what the problem is", queues, 3}},
             {"Additions and removals alternate for each item; an objective added back keeps its requirements (the library makes a new constraint for every addition of a task)",
              "A change of priority asks for a rebuild, and may be delivered for a task which is no longer there",
              "The numerical back-ends are stand-ins with the calling conventions of QLD, Quadprog, LSSOL and LexLS"});
}
