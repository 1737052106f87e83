// C04: substituting variables never changes the solution of a problem.
#include "pipe_tasks.h" // uses pipe.h and pipe.cpp

#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/hint/Substitution.h>
#include <tvm/hint/internal/AutoCalculator.h>
#include <tvm/hint/internal/DiagonalCalculator.h>
#include <tvm/hint/internal/GenericCalculator.h>
#include <tvm/hint/internal/Substitutions.h>
#include <tvm/scheme/HierarchicalLeastSquares.h>
#include <tvm/solver/LexLSHierarchicalLeastSquareSolver.h>

#include <malloc.h>
using namespace pipe_;
using namespace mc;
using tvm::requirements::PriorityLevel;
using tvm::requirements::SolvingRequirements;
using tvm::requirements::Weight;

namespace
{
using Vars = std::vector<VariablePtr>;

struct Block
{
  std::string var;
  Mat A;
  P props;
};
/** sum A_i v_i == c, stated as f == rhs with f = sum A_i v_i + b and rhs either given or absent */
struct Eq
{
  std::vector<Block> blocks;
  Vec c;
  bool rhs;
};
enum Calc
{
  AUTO,
  GENERIC,
  DIAG,
  DIAG_LIST,
  DIAG_RANGE
};
struct Cand
{
  std::string name;
  std::vector<Eq> eqs;
  std::vector<std::string> subst; // variables
  int rank; // 0: full
  Calc calc = AUTO;
};

VariablePtr var(const Std & w, const std::string & n)
{
  static const std::map<std::string, VariablePtr Std::*> m = {{"x", &Std::x}, {"y", &Std::y}, {"z", &Std::z}, {"dq", &Std::dq}, {"ddq", &Std::ddq}, {"x0", &Std::x0}, {"y1", &Std::y1}};
  return w.*(m.at(n));
}

const std::vector<Cand> & candidates()
{
  static std::vector<Cand> e;
  if(!e.empty()) return e;
  Mat I = Mat::Identity(2, 2);
  P none, id(P::IDENTITY), mid(P::MINUS_IDENTITY), diag(P::DIAGONAL, P::Invertibility(true));
  Mat B = M(2, 2, {0, 1, 3, 1});
  // simple ones
  e.push_back({"x = [2;1]", {{{{"x", I, id}}, V({2, 1}), true}}, {"x"}, 0});
  e.push_back({"x - B y = c", {{{{"x", I, id}, {"y", -B, none}}, V({1, -1}), true}}, {"x"}, 0});
  e.push_back({"A x + B y = c", {{{{"x", M(2, 2, {1, 2, -1, 0}), none}, {"y", B, none}}, V({0.5, 1}), false}}, {"x"}, 0});
  e.push_back({"rank 1 A x + b z = c", {{{{"x", M(2, 2, {1, 2, 2, 4}), none}, {"z", M(2, 1, {1, 0}), none}}, V({1, 2}), true}}, {"x"}, 1});
  e.push_back({"[1 -2] x + z = 3", {{{{"x", M(1, 2, {1, -2}), none}, {"z", M(1, 1, {1}), none}}, V({3}), true}}, {"x"}, 0});
  e.push_back({"3x2 A x + b z = c", {{{{"x", M(3, 2, {1, 0, 1, 1, 0, 2}), none}, {"z", M(3, 1, {1, 0, -1}), none}}, V({1, 0, 2}), true}}, {"x"}, 2});
  e.push_back({"y + C x = 0", {{{{"y", I, id}, {"x", M(2, 2, {1, 1, 0, -1}), none}}, V({0, 0}), false}}, {"y"}, 0});
  e.push_back({"D y - [1;1] z = d (diagonal)", {{{{"y", M(2, 2, {2, 0, 0, -4}), diag}, {"z", M(2, 1, {-1, -1}), none}}, V({2, 4}), true}}, {"y"}, 0, DIAG});
  e.push_back({"-z + [1 1] x = 0", {{{{"z", M(1, 1, {-1}), mid}, {"x", M(1, 2, {1, 1}), none}}, V({0}), false}}, {"z"}, 0});
  e.push_back({"x0 + 3 z = 1 (part)", {{{{"x0", M(1, 1, {1}), none}, {"z", M(1, 1, {3}), none}}, V({1}), true}}, {"x0"}, 0});
  e.push_back({"y1 - x0 = 2 (parts)", {{{{"y1", M(1, 1, {1}), id}, {"x0", M(1, 1, {-1}), mid}}, V({2}), false}}, {"y1"}, 0});
  // several constraints or variables
  e.push_back({"2 equations for x", {{{{"x", M(1, 2, {1, 1}), none}, {"z", M(1, 1, {1}), none}}, V({1}), true}, {{{"x", M(1, 2, {1, -1}), none}, {"y", M(1, 2, {-1, 0}), none}}, V({2}), false}}, {"x"}, 0});
  e.push_back({"1 equation for x and z",
               {{{{"x", M(3, 2, {1, 0, 1, 1, 0, 2}), none}, {"z", M(3, 1, {1, 0, -1}), none}, {"y", M(3, 2, {1, 0, 0, 1, 1, 1}), none}}, V({1, 2, 0}), true}},
               {"x", "z"}, 0});
  e.push_back({"2 equations for x and z, rank 2", {{{{"x", M(1, 2, {1, 1}), none}, {"z", M(1, 1, {1}), none}}, V({1}), true}, {{{"x", M(1, 2, {0, -1}), none}, {"z", M(1, 1, {2}), none}}, V({0}), false}}, {"x", "z"}, 0});
  e.push_back({"H ddq - x = h", {{{{"ddq", M(2, 2, {2, 1, 1, 3}), none}, {"x", -I, mid}}, V({1, 0.5}), true}}, {"ddq"}, 0, GENERIC});
  e.push_back({"diag(2,0) x + y = c", {{{{"x", M(2, 2, {2, 0, 0, 0}), none}, {"y", I, id}}, V({1, 2}), true}}, {"x"}, 1, DIAG_LIST});
  e.push_back({"[0 3] x + z = 2", {{{{"x", M(1, 2, {0, 3}), none}, {"z", M(1, 1, {1}), none}}, V({2}), true}}, {"x"}, 0, DIAG_RANGE});
  e.push_back({"dq + x = 1 (generic)", {{{{"dq", I, id}, {"x", I, id}}, V({1, 1}), true}}, {"dq"}, 0, GENERIC});
  e.push_back({"2 equations for y, rank 2 of 3", {{{{"y", M(2, 2, {1, 2, 2, 4}), none}, {"x", M(2, 2, {1, 0, 2, 1}), none}}, V({0, 0}), true}, {{{"y", M(1, 2, {0, 1}), none}}, V({1}), true}}, {"y"}, 2});
  e.push_back({"ddq + dq = 0", {{{{"ddq", I, id}, {"dq", M(2, 2, {1, 2, 0, 1}), none}}, V({0, 0}), false}}, {"ddq"}, 0});
  e.push_back({"y - [1;1] z - ddq = 0", {{{{"y", I, id}, {"z", M(2, 1, {-1, -1}), none}, {"ddq", -I, mid}}, V({0, 0}), false}}, {"y"}, 0});
  return e;
}

/** One substitution of a problem */
struct Sub
{
  const Cand * cand;
  std::vector<std::shared_ptr<BasicLinearFunction>> fs;
  std::vector<tvm::TaskWithRequirementsPtr> tasks;
  std::vector<tvm::LinearConstraintPtr> constraints;
  std::unique_ptr<tvm::hint::Substitution> sub;
  int version = 0;
  bool active = false;
};

/** The data change with the version: the coefficients by rows (which keeps the ranks) and the vector */
Mat data(const Block & b, int version, bool substituted)
{
  if(version == 0 || b.props.shape() != P::GENERAL) return b.A;
  if(substituted) return 2 * b.A;
  return -1.5 * b.A;
}
/** Version 2 has no constant term, whatever the initial one. */
Vec dataC(const Eq & e, int version)
{
  if(version == 2) return Vec::Zero(e.c.size());
  return version ? Vec(2 * e.c + Vec::Ones(e.c.size())) : e.c;
}

struct World4
{
  Std w;
  tvm::LinearizedControlProblem pb;
  std::vector<Sub> subs;
  std::vector<Spec> others;
  std::vector<tvm::TaskWithRequirementsPtr> otherTasks;

  void setData(Sub & s)
  {
    for(size_t i = 0; i < s.fs.size(); ++i)
    {
      auto & e = s.cand->eqs[i];
      for(auto & b : e.blocks)
      {
        bool sub = std::find(s.cand->subst.begin(), s.cand->subst.end(), b.var) != s.cand->subst.end();
        s.fs[i]->A(data(b, s.version, sub), *var(w, b.var), b.props);
      }
      Vec c = dataC(e, s.version);
      s.fs[i]->b(e.rhs ? Vec(Vec::Zero(c.size()) + (c - e.c) * -1) : Vec(-c));
    }
  }
  void addTasks(const Cand & cand, int priority = 0)
  {
    Sub s;
    s.cand = &cand;
    for(auto & e : cand.eqs)
    {
      Vars v;
      for(auto & b : e.blocks) v.push_back(var(w, b.var));
      s.fs.push_back(std::make_shared<BasicLinearFunction>(static_cast<int>(e.c.size()), v));
    }
    setData(s);
    for(size_t i = 0; i < cand.eqs.size(); ++i)
    {
      auto & e = cand.eqs[i];
      Task t = e.rhs ? Task(s.fs[i], Type::EQUAL, tvm::task_dynamics::None(), e.c) : Task(s.fs[i], Type::EQUAL, tvm::task_dynamics::None());
      s.tasks.push_back(pb.add(t, {PriorityLevel(priority)}));
      s.constraints.push_back(pb.constraint(*s.tasks.back()));
    }
    subs.push_back(std::move(s));
  }
  void substitute(Sub & s)
  {
    using namespace tvm::hint::internal;
    auto & k = *s.cand;
    Vars v;
    for(auto & n : k.subst) v.push_back(var(w, n));
    std::unique_ptr<tvm::hint::abstract::SubstitutionCalculator> calc;
    if(k.calc == GENERIC) calc = std::make_unique<GenericCalculator>();
    else if(k.calc == DIAG) calc = std::make_unique<DiagonalCalculator>();
    else if(k.calc == DIAG_LIST) calc = std::make_unique<DiagonalCalculator>(std::vector<Eigen::DenseIndex>{0}, std::vector<Eigen::DenseIndex>{1});
    else if(k.calc == DIAG_RANGE) calc = std::make_unique<DiagonalCalculator>(1, 1);
    else calc = std::make_unique<AutoCalculator>();
    s.sub = std::make_unique<tvm::hint::Substitution>(s.constraints, v, k.rank ? k.rank : tvm::constant::fullRank, *calc);
    pb.add(*s.sub);
    s.active = true;
  }
  void unsubstitute(Sub & s)
  {
    pb.remove(*s.sub);
    s.active = false;
  }
  std::vector<Spec> specs() const
  {
    std::vector<Spec> r = others;
    for(auto & s : subs)
      for(auto & e : s.cand->eqs)
      {
        std::vector<std::pair<VariablePtr, Mat>> bl;
        for(auto & b : e.blocks)
        {
          bool sub = std::find(s.cand->subst.begin(), s.cand->subst.end(), b.var) != s.cand->subst.end();
          bl.push_back({var(w, b.var), data(b, s.version, sub)});
        }
        r.push_back(w.spec(Type::EQUAL, bl, dataC(e, s.version), Vec()));
        r.back().name = s.cand->name;
      }
    return r;
  }
  void other(const Entry & e, int p)
  {
    auto t = e.make(w);
    t.second.priority = p;
    t.second.weight = p == 2 ? 4 : 1;
    t.second.name = e.name;
    others.push_back(t.second);
    if(p == 2)
      otherTasks.push_back(pb.add(t.first, {PriorityLevel(2), Weight(4)}));
    else
      otherTasks.push_back(pb.add(t.first, {PriorityLevel(p)}));
  }
};

bool overlap(const Std & w, const Cand & a, const Cand & b)
{
  for(auto & u : a.subst)
    for(auto & v : b.subst)
      if(var(w, u)->intersects(*var(w, v))) return true;
  return false;
}

/** Are there active substitutions that depend on each other? */
bool cyclic(const World4 & W)
{
  size_t n = W.subs.size();
  std::vector<std::vector<bool>> dep(n, std::vector<bool>(n, false));
  for(size_t i = 0; i < n; ++i)
    for(size_t j = 0; j < n; ++j)
      if(i != j && W.subs[i].active && W.subs[j].active)
        for(auto & e : W.subs[i].cand->eqs)
          for(auto & b : e.blocks)
            for(auto & x : W.subs[j].cand->subst)
              if(var(W.w, b.var)->intersects(*var(W.w, x))) dep[i][j] = true;
  for(size_t k = 0; k < n; ++k)
    for(size_t i = 0; i < n; ++i)
      for(size_t j = 0; j < n; ++j)
        if(dep[i][k] && dep[k][j]) dep[i][j] = true;
  for(size_t i = 0; i < n; ++i)
    if(dep[i][i]) return true;
  return false;
}

/** Number of unknowns that the active substitutions remove */
int declared(const World4 & W)
{
  int n = 0;
  for(auto & s : W.subs)
    if(s.active)
    {
      int m = 0;
      for(auto & e : s.cand->eqs) m += static_cast<int>(e.c.size());
      n += s.cand->rank ? s.cand->rank : m;
    }
  return n;
}

constexpr int HIERARCHICAL = 100;
struct Scheme4
{
  std::unique_ptr<tvm::scheme::WeightedLeastSquares> w;
  std::unique_ptr<tvm::scheme::HierarchicalLeastSquares> h;
  explicit Scheme4(int backend, bool damp = false)
  {
    if(backend == HIERARCHICAL) h = std::make_unique<tvm::scheme::HierarchicalLeastSquares>(tvm::solver::LexLSHLSSolverOptions());
    else w = makeScheme(backend, damp, 10);
  }
  bool solve(Ctx & c, World4 & W, stub::Problem * cap)
  {
    if(w) return solveExact(W.w, W.pb, *w, cap);
    mute();
    bool hasObj = false;
    for(auto & o : W.others) hasObj = hasObj || o.priority > 0;
    stub::answer() = [&](const stub::Problem & p, Vec & x) {
      c.check(p.misuse.empty(), "misuse", [&] { return p.misuse; });
      stub::Problem q = p;
      q.isHierarchical = false;
      q.levels.clear();
      q.cstr.clear();
      q.hasCost = true;
      q.Q = Mat::Zero(p.n, p.n);
      q.c = Vec::Zero(p.n);
      for(size_t l = 0; l < p.levels.size(); ++l)
        for(auto & r : p.levels[l])
          if(hasObj && l + 1 == p.levels.size())
          {
            c.check(r.l == r.u, "misuse", "objective row is not an equality");
            q.Q += r.a * r.a.transpose();
            q.c -= r.a * r.l;
          }
          else
            q.cstr.push_back(r);
      if(cap) *cap = q;
      x = Vec::Zero(p.n);
      return exactQP(q, x);
    };
    bool b = h->solve(W.pb);
    stub::answer() = nullptr;
    return b;
  }
};

void solveAndCheck(Ctx & c, World4 & W, Scheme4 & s)
{
  auto specs = W.specs();
  Canon want = expected(specs, W.w.N, 10, false);
  Vec best;
  bool feasible = optimum(specs, want, best);
  if(s.h && !feasible) c.prune(); // the hierarchical solver then minimises the violation
  W.w.set(Eigen::Map<const Vec>(W.w.rest.data(), W.w.N));
  stub::Problem cap;
  cap.n = 0;
  bool b = false;
  try
  {
    b = s.solve(c, W, &cap);
  }
  catch(const std::exception & e)
  {
    std::string m = e.what();
    // the rank of interdependent substitutions is guessed from the declared ones, a wrong guess is announced
    if(cyclic(W) && (m.find("rank") != std::string::npos || m.find("too many equations") != std::string::npos)) c.prune();
    // announced: a task uses a part of a variable that is substituted as a whole
    if(m.find("level of granularity") != std::string::npos) c.prune();
    c.fail("refused", m);
    return;
  }
  c.check(b == feasible, "status", [&] { return cat("solve returned ", b, ", the problem is ", feasible ? "feasible" : "infeasible", ", back-end received ", show(cap)); });
  if(!b) return;
  Vec got = W.w.get();
  for(int i = 0; i < W.w.N; ++i)
    if(!want.uses[static_cast<size_t>(i)]) c.check(got[i] == W.w.rest[static_cast<size_t>(i)], "untouched", [&] { return cat("component ", i, ", which no task uses, was changed"); });
  std::string e = checkSolution(specs, want, got, best, false);
  if(!e.empty()) e += "; back-end received " + show(cap);
  c.check(e.empty(), "wrong-solution", [&] { return e; });
  int n = 0;
  for(bool u : want.uses) n += u;
  c.check(cap.n <= n - declared(W), "too-many-unknowns", [&] { return cat("the solver has ", cap.n, " unknowns, out of ", n, " with ", declared(W), " substituted"); });
  c.state(Hash().m(got).i(cap.n));
}

const std::vector<int> all = {QLD, HIERARCHICAL, QUADPROG, LSSOL, LEXLS}, one = {QLD};

/** nSub substitutions and nOther tasks */
void combos(Ctx & c, int nSub, const std::vector<int> & pool, int nOther, const std::vector<int> & backends)
{
  int b = backends[static_cast<size_t>(c.choose(static_cast<int>(backends.size())))];
  const auto & cs = candidates();
  World4 W;
  std::vector<const Cand *> chosen;
  int prev = -1;
  for(int i = 0; i < nSub; ++i)
  {
    int left = static_cast<int>(cs.size()) - prev - 1 - (nSub - 1 - i);
    prev = prev + 1 + c.choose(left);
    chosen.push_back(&cs[static_cast<size_t>(prev)]);
    for(int j = 0; j < i; ++j)
      if(overlap(W.w, *chosen[static_cast<size_t>(j)], *chosen.back())) c.prune();
  }
  // order in which they are declared
  if(nSub > 1 && c.flip()) std::reverse(chosen.begin(), chosen.end());
  bool othersFirst = nOther && c.flip();
  int p0 = -1;
  std::vector<std::pair<int, int>> others;
  for(int i = 0; i < nOther; ++i)
  {
    int left = static_cast<int>(pool.size()) - p0 - 1 - (nOther - 1 - i);
    p0 = p0 + 1 + c.choose(left);
    int id = pool[static_cast<size_t>(p0)];
    others.push_back({id, palette()[static_cast<size_t>(id)].ineq ? 0 : c.choose(2)});
  }
  auto addOthers = [&] {
    for(auto & o : others)
    {
      c.step([&] { return cat("task ", palette()[static_cast<size_t>(o.first)].name, " priority ", o.second); });
      W.other(palette()[static_cast<size_t>(o.first)], o.second);
    }
  };
  if(othersFirst) addOthers();
  for(auto k : chosen)
  {
    c.step([&] { return cat("substitution by ", k->name); });
    W.addTasks(*k);
    W.substitute(W.subs.back());
  }
  if(!othersFirst) addOthers();
  bool damp = nOther < 2 && nSub == 1 && b != HIERARCHICAL && c.flip(); // (the minimum norm is about the remaining unknowns)
  Scheme4 s(b, damp);
  c.step("solve");
  solveAndCheck(c, W, s);
  for(auto & q : W.subs)
  {
    c.step("new data, solve");
    q.version = 1 - q.version;
    W.setData(q);
    solveAndCheck(c, W, s);
  }
}

std::vector<int> allTasks()
{
  std::vector<int> v(palette().size());
  for(size_t i = 0; i < v.size(); ++i) v[i] = static_cast<int>(i);
  return v;
}

/** The affine maps and remaining constraints of \p subs describe exactly the solutions of C x = d.
 * off gives the place in x of each (super) variable.
 */
void verify(Ctx & c, const tvm::hint::internal::Substitutions & subs, const std::map<tvm::Variable *, int> & off, int N, const Mat & C, const Vec & d)
{
  using tvm::constraint::RHS;
  // free unknowns: those of the universe that are not substituted, then the additional ones
  std::map<const tvm::Variable *, int> zOff;
  int nz = 0;
  for(auto & z : subs.additionalVariables())
  {
    zOff[z.get()] = N + nz;
    nz += z->size();
  }
  auto where = [&](const tvm::Variable & v) {
    auto it = zOff.find(&v);
    if(it != zOff.end()) return it->second;
    auto sup = v.superVariable();
    return off.at(sup.get()) + v.subvariableRange().start;
  };
  Mat X = Mat::Zero(N, N + nz);
  Vec u = Vec::Zero(N);
  for(int i = 0; i < N; ++i) X(i, i) = 1;
  const auto & xs = subs.variables();
  std::vector<bool> isSub(static_cast<size_t>(N), false);
  for(auto & x : xs)
    for(int i = 0; i < x->size(); ++i) isSub[static_cast<size_t>(where(*x) + i)] = true;
  for(size_t i = 0; i < xs.size(); ++i)
  {
    auto & f = subs.variableSubstitutions()[i];
    int o = where(*xs[i]);
    X.middleRows(o, xs[i]->size()).setZero();
    for(auto & v : f->variables())
    {
      if(v->size() == 0) continue;
      int d = where(*v);
      for(int j = 0; j < v->size(); ++j)
        c.check(d + j >= N || !isSub[static_cast<size_t>(d + j)], "not-eliminated", [&] { return cat(xs[i]->name(), " is given in terms of ", v->name(), ", which is substituted too"); });
      X.block(o, d, xs[i]->size(), v->size()) += f->jacobian(*v);
    }
    u.segment(o, xs[i]->size()) = f->b();
    c.check(!f->b().properties().isZero() || f->b().isZero(), "properties", [&] { return cat("the vector of ", xs[i]->name(), " is declared zero and is ", f->b().transpose()); });
  }
  // remaining constraints R [y;z] = r
  int m = 0;
  for(auto & k : subs.additionalConstraints()) m += k->size();
  Mat R = Mat::Zero(m, N + nz);
  Vec r = Vec::Zero(m);
  m = 0;
  for(auto & k : subs.additionalConstraints())
  {
    for(auto & v : k->variables())
      if(v->size())
      {
        for(int j = 0; j < v->size(); ++j)
          c.check(where(*v) + j >= N || !isSub[static_cast<size_t>(where(*v) + j)], "not-eliminated", "a remaining constraint uses a substituted variable");
        R.block(m, where(*v), k->size(), v->size()) += k->jacobian(*v);
      }
    c.check(k->rhs() == RHS::AS_GIVEN && k->type() == Type::EQUAL, "remaining-convention", "");
    r.segment(m, k->size()) = k->e();
    m += k->size();
  }
  // the substituted components are not free unknowns
  Mat Rx = Mat::Zero(R.rows() + N, N + nz);
  Rx.topRows(R.rows()) = R;
  Vec rx = Vec::Zero(Rx.rows());
  rx.head(r.size()) = r;
  for(int i = 0; i < N; ++i)
    if(isSub[static_cast<size_t>(i)]) Rx(R.rows() + i, i) = 1;
  Eigen::FullPivLU<Mat> lr(Rx);
  lr.setThreshold(1e-9);
  Vec p = lr.solve(rx);
  bool hasFree = (Rx * p - rx).cwiseAbs().maxCoeff() < 1e-8;
  Eigen::FullPivLU<Mat> lc(C);
  lc.setThreshold(1e-9);
  Vec p2 = lc.solve(d);
  bool has = (C * p2 - d).cwiseAbs().maxCoeff() < 1e-8;
  c.check(has == hasFree, "feasibility", [&] { return cat("the constraints have ", has ? "" : "no ", "solutions, what remains has ", hasFree ? "" : "no ", "solutions"); });
  if(!has) return;
  Mat K = lr.rank() < Rx.cols() ? Mat(lr.kernel()) : Mat::Zero(Rx.cols(), 0);
  double e0 = (C * (X * p + u) - d).cwiseAbs().maxCoeff();
  double e1 = K.cols() ? (C * X * K).cwiseAbs().maxCoeff() : 0;
  c.check(e0 < 1e-8 && e1 < 1e-8, "wrong-substitution", [&] { return cat("the substituted variables do not satisfy the constraints: ", e0, " ", e1, "\nX = ", X, "\nu = ", u.transpose()); });
  // nothing is lost
  Eigen::FullPivLU<Mat> lk(X * K);
  lk.setThreshold(1e-9);
  c.check(K.cols() == 0 || (lk.rank() == K.cols()), "redundant", "different values of the unknowns give the same solution");
  c.check(static_cast<int>(K.cols()) == N - static_cast<int>(lc.rank()), "lost-solutions", [&] { return cat("the constraints have a ", N - lc.rank(), "-dimensional set of solutions, the substitution gives ", K.cols()); });
  c.state(Hash().m(X).m(u));
}

/** The substitutions by themselves: the constraints of any convention, the affine maps they give. */
void units(Ctx & c, int nSub)
{
  using namespace tvm::hint::internal;
  using tvm::constraint::BasicLinearConstraint;
  using tvm::constraint::RHS;
  const auto & cs = candidates();
  Std w;
  std::vector<const Cand *> chosen;
  int prev = -1;
  for(int i = 0; i < nSub; ++i)
  {
    int left = static_cast<int>(cs.size()) - prev - 1 - (nSub - 1 - i);
    prev = prev + 1 + c.choose(left);
    chosen.push_back(&cs[static_cast<size_t>(prev)]);
    for(int j = 0; j < i; ++j)
      if(overlap(w, *chosen[static_cast<size_t>(j)], *chosen.back())) c.prune();
  }
  if(nSub > 1 && c.flip()) std::reverse(chosen.begin(), chosen.end());
  struct Built
  {
    std::shared_ptr<BasicLinearConstraint> cstr;
    const Cand * cand;
    const Eq * eq;
    int rhs;
  };
  std::vector<Built> built;
  Substitutions subs;
  World4 shape; // only for the dependencies
  int version = 0;
  auto value = [&](const Built & b) { return b.rhs == 2 ? Vec(Vec::Zero(b.eq->c.size())) : dataC(*b.eq, version); };
  auto blockOf = [&](const Built & b, const Block & k) {
    bool sub = std::find(b.cand->subst.begin(), b.cand->subst.end(), k.var) != b.cand->subst.end();
    return data(k, version, sub);
  };
  auto set = [&] {
    for(auto & b : built)
    {
      for(auto & k : b.eq->blocks) b.cstr->A(blockOf(b, k), *var(w, k.var), k.props);
      Vec v = value(b);
      if(b.rhs < 2) b.cstr->b(b.rhs ? Vec(-v) : v);
    }
  };
  for(auto k : chosen)
  {
    std::vector<tvm::LinearConstraintPtr> mine;
    int rhs = c.choose(3);
    c.step([&] { return cat("substitution by ", k->name, rhs == 0 ? "" : rhs == 1 ? " (opposite convention)" : " (with zero)"); });
    for(auto & e : k->eqs)
    {
      Vars v;
      for(auto & b : e.blocks) v.push_back(var(w, b.var));
      auto p = std::make_shared<BasicLinearConstraint>(static_cast<int>(e.c.size()), v, Type::EQUAL, rhs == 0 ? RHS::AS_GIVEN : rhs == 1 ? RHS::OPPOSITE : RHS::ZERO);
      built.push_back({p, k, &e, rhs});
      mine.push_back(p);
    }
    set();
    Vars v;
    for(auto & n : k->subst) v.push_back(var(w, n));
    auto add = [&](const tvm::hint::abstract::SubstitutionCalculator & calc) {
      subs.add(tvm::hint::Substitution(mine, v, k->rank ? k->rank : tvm::constant::fullRank, calc));
    };
    if(k->calc == GENERIC) add(GenericCalculator());
    else if(k->calc == DIAG) add(DiagonalCalculator());
    else if(k->calc == DIAG_LIST) add(DiagonalCalculator(std::vector<Eigen::DenseIndex>{0}, std::vector<Eigen::DenseIndex>{1}));
    else if(k->calc == DIAG_RANGE) add(DiagonalCalculator(1, 1));
    else add(AutoCalculator());
    Sub q;
    q.cand = k;
    q.active = true;
    shape.subs.push_back(std::move(q));
  }
  for(int round = 0; round < 3; ++round)
  {
    version = round == 1;
    set();
    c.step(round ? "new data, update" : "update");
    if(round == 2)
    {
      c.step("remove a substitution and add it back");
      auto first = subs.substitutions().front();
      subs.remove(first);
      if(c.thorough || nSub == 1) subs.finalize();
      subs.add(first);
    }
    try
    {
      subs.finalize();
      subs.updateSubstitutions();
    }
    catch(const std::exception & e)
    {
      std::string m = e.what();
      if(cyclic(shape) && (m.find("rank") != std::string::npos || m.find("too many equations") != std::string::npos)) c.prune();
      c.fail("refused", m);
      return;
    }
    // stated constraints C x = d
    int rows = 0;
    for(auto & b : built) rows += static_cast<int>(b.eq->c.size());
    Mat C = Mat::Zero(rows, w.N);
    Vec d = Vec::Zero(rows);
    rows = 0;
    for(auto & b : built)
    {
      for(auto & k : b.eq->blocks) C.block(rows, w.off.at(var(w, k.var).get()), b.eq->c.size(), k.A.cols()) += blockOf(b, k);
      d.segment(rows, b.eq->c.size()) = value(b);
      rows += static_cast<int>(b.eq->c.size());
    }
    verify(c, subs, w.off, w.N, C, d);
  }
}

/** Chains of substitutions, each one using any of the variables substituted before: which vectors are zero */
void chains(Ctx & c, int nSub)
{
  using namespace tvm::hint::internal;
  using tvm::constraint::BasicLinearConstraint;
  using tvm::constraint::RHS;
  std::map<tvm::Variable *, int> off;
  int N = 0;
  auto create = [&](const std::string & name, int size) {
    tvm::VariablePtr v = tvm::Space(size).createVariable(name);
    off[v.get()] = N;
    N += size;
    return v;
  };
  tvm::VariablePtr y = create("y", 1);
  struct Row
  {
    std::shared_ptr<BasicLinearConstraint> cstr;
    std::vector<std::pair<tvm::VariablePtr, Mat>> blocks;
    int rhs;
    Vec e;
  };
  struct One
  {
    Vars vars;
    std::vector<Row> rows;
  };
  std::vector<One> all;
  Vars before;
  for(int i = 0; i < nSub; ++i)
  {
    One o;
    int kind = c.choose(4);
    static const char * names[] = {"a scalar by 1 constraint", "2 scalars by 1 constraint", "2 scalars by 2 constraints", "a vector by 2 constraints"};
    c.step([&] { return cat("substitution ", i, " of ", names[kind]); });
    if(kind == 3)
      o.vars = {create(cat("v", i), 2)};
    else
    {
      o.vars = {create(cat("a", i), 1)};
      if(kind) o.vars.push_back(create(cat("b", i), 1));
    }
    Mat D = kind ? M(2, 2, {2, 1, 0, -1}) : M(1, 1, {-2});
    int nc = kind >= 2 ? 2 : 1;
    int m = static_cast<int>(D.rows()) / nc;
    for(int k = 0; k < nc; ++k)
    {
      Row r;
      Mat Dk = D.middleRows(k * m, m);
      int col = 0;
      for(auto & v : o.vars)
      {
        r.blocks.push_back({v, Dk.middleCols(col, v->size())});
        col += v->size();
      }
      r.blocks.push_back({y, Mat::Ones(m, 1)});
      if(k == 0 || c.thorough)
        for(size_t b = 0; b < before.size(); ++b)
          if(c.flip())
          {
            c.step([&] { return cat("its constraint ", k, " uses ", before[b]->name()); });
            Mat A(m, before[b]->size());
            for(int q = 0; q < A.size(); ++q) A(q) = 1 + 0.5 * q + 0.25 * static_cast<double>(b);
            r.blocks.push_back({before[b], A});
          }
      const int conventions[] = {0, 2, 1};
      r.rhs = conventions[c.choose(c.thorough ? 3 : 2)];
      if(r.rhs == 2) c.step([&] { return cat("its constraint ", k, " has no right-hand side"); });
      r.e = r.rhs == 2 ? Vec(Vec::Zero(m)) : Vec(Vec::LinSpaced(m, 1 + i, 2 + i));
      Vars v;
      for(auto & b : r.blocks) v.push_back(b.first);
      r.cstr = std::make_shared<BasicLinearConstraint>(m, v, Type::EQUAL, r.rhs == 0 ? RHS::AS_GIVEN : r.rhs == 1 ? RHS::OPPOSITE : RHS::ZERO);
      for(auto & b : r.blocks) r.cstr->A(b.second, *b.first);
      if(r.rhs < 2) r.cstr->b(r.rhs ? Vec(-r.e) : r.e);
      o.rows.push_back(r);
    }
    before.insert(before.end(), o.vars.begin(), o.vars.end());
    all.push_back(o);
  }
  Substitutions subs;
  bool rev = nSub > 1 && c.flip();
  if(rev) c.step("declared in reverse order");
  for(int i = 0; i < nSub; ++i)
  {
    auto & o = all[static_cast<size_t>(rev ? nSub - 1 - i : i)];
    std::vector<tvm::LinearConstraintPtr> cs;
    for(auto & r : o.rows) cs.push_back(r.cstr);
    subs.add(tvm::hint::Substitution(cs, o.vars));
  }
  subs.finalize();
  for(int round = 0; round < 2; ++round)
  {
    subs.updateSubstitutions();
    int rows = 0;
    for(auto & o : all)
      for(auto & r : o.rows) rows += static_cast<int>(r.e.size());
    Mat C = Mat::Zero(rows, N);
    Vec d = Vec::Zero(rows);
    rows = 0;
    for(auto & o : all)
      for(auto & r : o.rows)
      {
        for(auto & b : r.blocks) C.block(rows, off.at(b.first.get()), r.e.size(), b.first->size()) = b.second;
        d.segment(rows, r.e.size()) = r.e;
        rows += static_cast<int>(r.e.size());
      }
    verify(c, subs, off, N, C, d);
    c.step("second update");
  }
}

/** tasks and substitutions come and go */
void edits(Ctx & c)
{
  static const std::vector<std::vector<int>> sets = {{4, 6}, {9, 7}, {3, 10}, {2, 8}, {1, 7}, {11, 10}, {12, 17}};
  int b = c.thorough ? all[static_cast<size_t>(c.choose(5))] : c.flip() ? HIERARCHICAL : QLD;
  World4 W;
  const auto & set = sets[static_cast<size_t>(c.choose(c.thorough ? static_cast<int>(sets.size()) : 3))];
  for(int i : set)
  {
    W.addTasks(candidates()[static_cast<size_t>(i)]);
    c.step([&] { return cat("task ", W.subs.back().cand->name); });
  }
  W.other(palette()[18], 1);
  W.other(palette()[20], 1);
  Scheme4 s(b);
  int extra = -1;
  int depth = c.thorough ? 5 : b == HIERARCHICAL ? 3 : 4;
  for(int d = 0; d < depth; ++d)
  {
    int op = c.choose(6);
    if(op < 2)
    {
      auto & q = W.subs[static_cast<size_t>(op)];
      c.step([&] { return cat(q.active ? "remove" : "add", " substitution by ", q.cand->name); });
      if(q.active) W.unsubstitute(q);
      else W.substitute(q);
    }
    else if(op == 2)
    {
      auto & q = W.subs[0];
      q.version = (q.version + 2 - (c.thorough ? c.choose(2) : 0)) % 3;
      c.step([&] { return cat("new data, version ", q.version); });
      W.setData(q);
    }
    else if(op == 5)
    {
      c.step("set the priority of a task anew: the data of the scheme are built again");
      W.otherTasks[0]->requirements.priorityLevel() = 1;
    }
    else if(op == 3)
    {
      if(extra < 0)
      {
        c.step("add an inequality");
        extra = static_cast<int>(W.others.size());
        W.other(palette()[c.thorough && c.flip() ? 2 : 12], 0);
      }
      else
      {
        c.step("remove the inequality");
        W.pb.remove(*W.otherTasks.back());
        W.otherTasks.pop_back();
        W.others.pop_back();
        extra = -1;
      }
    }
    else
    {
      // remove the task of a substitution, add it back
      auto & q = W.subs[0];
      if(q.cand->eqs.size() > 1 || (q.active && q.cand->subst.size() > 1)) c.prune();
      c.step([&] { return cat("remove the task of ", q.cand->name, " and add it back"); });
      W.pb.remove(*q.tasks[0]);
      q.active = false; // goes with the constraint
      if(c.flip())
      {
        Sub old = std::move(W.subs[0]);
        W.subs.erase(W.subs.begin());
        solveAndCheck(c, W, s);
        W.subs.insert(W.subs.begin(), std::move(old));
      }
      auto & r = W.subs[0];
      W.pb.add(r.tasks[0]);
      r.constraints[0] = W.pb.constraint(*r.tasks[0]);
    }
    if(d == depth - 1 || c.flip())
    {
      c.step("solve");
      solveAndCheck(c, W, s);
    }
  }
}
} // namespace

int main(int argc, char ** argv)
{
  mallopt(M_PERTURB, 1); // fresh memory is not zero
  static const std::vector<int> few = {0, 5, 7, 12, 14, 16, 18, 20};
  return run(argc, argv, "C04",
             {{"units", "every set of 1, 2 or 3 compatible substitutions in both orders, every convention of the constraints: affine maps, remaining constraints", [](Ctx & c) { int n = c.choose(3); units(c, n + 1); }, 4},
              {"chains", "every chain of 2 or 3 substitutions of scalars, pairs and vectors by one or two constraints, each using any of the variables substituted before, with and without right-hand side, in both orders", [](Ctx & c) { int n = c.choose(2); chains(c, n + 2); }, 4},
              {"alone", "every substitution with no other task and with every task of the palette, the 4 back-ends and the hierarchical scheme", [](Ctx & c) { int n = c.choose(2); combos(c, 1, allTasks(), n, all); }, 3},
              {"pairs-of-tasks", "every substitution with every pair of tasks of the palette, before and after", [](Ctx & c) { combos(c, 1, allTasks(), 2, c.thorough ? all : one); }, 4},
              {"two", "every pair of compatible substitutions, in both orders, with 0 or 1 task of the palette, weighted and hierarchical schemes", [](Ctx & c) { int n = c.choose(2); combos(c, 2, allTasks(), n, c.thorough ? all : std::vector<int>{QLD, HIERARCHICAL}); }, 4},
              {"two-and-two", "every pair of compatible substitutions, in both orders, with pairs of 8 tasks of the palette", [](Ctx & c) { combos(c, 2, c.thorough ? allTasks() : few, 2, one); }, 4},
              {"three", "every triple of compatible substitutions, with 0 or 1 of 8 tasks of the palette", [](Ctx & c) { int n = c.choose(2); combos(c, 3, few, n, one); }, 4},
              {"edits", "all sequences of 4 (5) additions and removals of substitutions and tasks and changes of data", edits, 4}},
             {"The numerical back-ends are stand-ins that solve exactly; the library's own wrappers are the real code"});
}
