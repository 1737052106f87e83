// C15: assignments of linear constraints into solver matrices, vectors and bounds; compiled assignments.
#include "mc.h"

#include <Eigen/Cholesky>
#include <Eigen/LU>

#include <tvm/Range.h>
#include <tvm/Space.h>
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/hint/Substitution.h>
#include <tvm/hint/internal/Substitutions.h>
#include <tvm/requirements/SolvingRequirements.h>
#include <tvm/scheme/internal/Assignment.h>
#include <tvm/scheme/internal/AssignmentTarget.h>
#include <tvm/scheme/internal/CompiledAssignmentWrapper.h>

#include <map>
#include <memory>

using namespace tvm;
using namespace mc;
using namespace Eigen;
using constraint::BasicLinearConstraint;
using constraint::RHS;
using constraint::Type;
using scheme::internal::Assignment;
using scheme::internal::AssignmentTarget;
using tvm::internal::MatrixProperties;

namespace
{
template<typename... A>
void note(Ctx & c, const A &... a)
{ c.note(cat(a...)); }

const double S = -777.25; // sentinel
const double INF = 1e100;

const char * tname(Type t)
{
  static const char * n[] = {"=", ">=", "<=", "<<"};
  return t == Type::EQUAL ? n[0] : t == Type::GREATER_THAN ? n[1] : t == Type::LOWER_THAN ? n[2] : n[3];
}
const char * rname(RHS r) { return r == RHS::ZERO ? "zero" : r == RHS::AS_GIVEN ? "given" : "opposite"; }

/** lo <= a.v <= hi over all the scalar unknowns */
struct Row
{
  VectorXd a;
  double lo, hi;
  bool same(const Row & o, double eps = 1e-9) const
  {
    auto eq = [&](double p, double q) {
      if(p > INF || q > INF || p < -INF || q < -INF)
        return (p > INF && q > INF) || (p < -INF && q < -INF);
      return std::abs(p - q) <= eps * (1 + std::abs(p) + std::abs(q));
    };
    for(int s = 0; s < 2; ++s)
    {
      double g = s ? -1 : 1;
      bool ok = eq(lo, s ? -o.hi : o.lo) && eq(hi, s ? -o.lo : o.hi);
      for(int i = 0; ok && i < a.size(); ++i)
        ok = eq(a[i], g * o.a[i]);
      if(ok)
        return true;
    }
    return false;
  }
  std::string str() const { return cat("[", a.transpose(), "] in [", lo, ", ", hi, "]"); }
};

Row row(Type t, RHS r, const VectorXd & a, double e, double l, double u)
{
  double s = r == RHS::ZERO ? 0 : r == RHS::OPPOSITE ? -1 : 1;
  switch(t)
  {
    case Type::EQUAL:
      return {a, s * e, s * e};
    case Type::GREATER_THAN:
      return {a, s * l, 1e300};
    case Type::LOWER_THAN:
      return {a, -1e300, s * u};
    default:
      return {a, s * l, s * u};
  }
}

/** The world: the scalar unknowns are x (2), y (2), w (1), q (1). */
struct World
{
  VariablePtr x, y, w, q, xa, xb;
  std::map<const Variable *, int> pos; // first unknown
  World()
  {
    x = Space(2).createVariable("x");
    y = Space(2).createVariable("y");
    w = Space(1).createVariable("w");
    q = Space(1).createVariable("q");
    xa = x->subvariable(Space(1), "xa", Space(0));
    xb = x->subvariable(Space(1), "xb", Space(1));
    pos = {{x.get(), 0}, {y.get(), 2}, {w.get(), 4}, {q.get(), 5}, {xa.get(), 0}, {xb.get(), 1}};
  }
};
const int N = 6;

const Type types[] = {Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED};
const RHS rhss[] = {RHS::ZERO, RHS::AS_GIVEN, RHS::OPPOSITE};

MatrixXd data(int m, int n, int k)
{
  MatrixXd M(m, n);
  for(int i = 0; i < m; ++i)
    for(int j = 0; j < n; ++j)
      M(i, j) = 1 + 0.5 * k + i * 2 - 0.75 * j * (i + 1) + (i == j ? 3 : 0);
  return M;
}

/** A linear constraint with its own description. */
struct Src
{
  std::shared_ptr<BasicLinearConstraint> c;
  std::vector<VariablePtr> v;
  std::vector<MatrixXd> A;
  VectorXd e, l, u;
  Type t;
  RHS r;
  int m;
  std::vector<int> form; // 0 general, 1 identity, 2 minus identity, 3 zero, 4 diagonal
  int k = 0;

  void make(Type tt, RHS rr, int mm, const std::vector<VariablePtr> & vars, const std::vector<int> & f)
  {
    t = tt;
    r = rr;
    m = mm;
    v = vars;
    form = f;
    auto vv = v;
    if(vv.size() == 1)
      c = std::make_shared<BasicLinearConstraint>(m, vv[0], t, r);
    else
      c = std::make_shared<BasicLinearConstraint>(m, vv, t, r);
    set(0);
  }
  void set(int kk)
  {
    k = kk;
    A.clear();
    for(size_t i = 0; i < v.size(); ++i)
    {
      int n = v[i]->size();
      MatrixXd M;
      MatrixProperties p;
      switch(form[i])
      {
        case 1:
          M = MatrixXd::Identity(m, n);
          p = MatrixProperties(MatrixProperties::IDENTITY);
          break;
        case 2:
          M = -MatrixXd::Identity(m, n);
          p = MatrixProperties(MatrixProperties::MINUS_IDENTITY);
          break;
        case 3:
          M = MatrixXd::Zero(m, n);
          p = MatrixProperties(MatrixProperties::ZERO);
          break;
        case 4:
        case 5:
        case 6:
          M = MatrixXd::Zero(m, n);
          for(int j = 0; j < m; ++j)
            M(j, j) = form[i] == 4 ? 2 + j + k : form[i] == 5 ? -(2. + j + k) : (j % 2 ? -1 : 1) * (0.5 + j + k);
          p = form[i] == 4 ? MatrixProperties(MatrixProperties::DIAGONAL, MatrixProperties::POSITIVE_DEFINITE)
              : form[i] == 5
                  ? MatrixProperties(MatrixProperties::DIAGONAL, MatrixProperties::NEGATIVE_DEFINITE)
                  : MatrixProperties(MatrixProperties::DIAGONAL, MatrixProperties::Invertibility(true));
          break;
        default:
          M = data(m, n, k + static_cast<int>(i));
      }
      c->A(M, *v[i], p);
      A.push_back(M);
    }
    e = VectorXd::LinSpaced(m, 1.5 + k, 2.25 - k);
    l = VectorXd::LinSpaced(m, -2. - k, -1.);
    u = VectorXd::LinSpaced(m, 3., 5. + 2 * k);
    if(r != RHS::ZERO)
    {
      if(t == Type::EQUAL)
        c->b(e);
      else if(t == Type::GREATER_THAN)
        c->b(l);
      else if(t == Type::LOWER_THAN)
        c->b(u);
      else
      {
        c->l(r == RHS::OPPOSITE ? VectorXd(-l) : l);
        c->u(r == RHS::OPPOSITE ? VectorXd(-u) : u);
        if(r == RHS::OPPOSITE)
        {
          l = -l;
          u = -u;
        }
      }
    }
  }
  std::vector<Row> rows(World & W) const
  {
    std::vector<Row> R;
    for(int i = 0; i < m; ++i)
    {
      VectorXd a = VectorXd::Zero(N);
      for(size_t j = 0; j < v.size(); ++j)
        a.segment(W.pos[v[j].get()], v[j]->size()) += A[j].row(i).transpose();
      R.push_back(row(t, r, a, e[i], l[i], u[i]));
    }
    return R;
  }
};

/** A substitution of variable x through ax x + sum b_i y_i = d. */
struct Sub
{
  VariablePtr x;
  std::shared_ptr<Src> s;
};

/** replace the unknowns given by an equality constraint */
void substitute(World & W, const Sub & sub, std::vector<Row> & R)
{
  int p = W.pos[sub.x.get()], n = sub.x->size();
  auto eqs = sub.s->rows(W);
  MatrixXd E(n, N);
  VectorXd d(n);
  for(int i = 0; i < n; ++i)
  {
    E.row(i) = eqs[i].a.transpose();
    d[i] = eqs[i].lo;
  }
  MatrixXd inv = E.middleCols(p, n).inverse();
  E = inv * E;
  d = inv * d;
  for(auto & r : R)
  {
    VectorXd ax = r.a.segment(p, n);
    r.a -= E.transpose() * ax; // the part on x becomes zero
    r.a.segment(p, n).setZero();
    double s = ax.dot(d);
    if(std::abs(r.lo) < INF)
      r.lo -= s;
    if(std::abs(r.hi) < INF)
      r.hi -= s;
  }
}

struct Target
{
  MatrixXd A, A2;
  VectorXd b, l, u, b2, l2, u2;
  RangePtr range;
  Type t;
  RHS r;
  int which = 0;
  void reset()
  {
    for(MatrixXd * M : {&A, &A2})
      M->setConstant(9, N + 1, S);
    for(VectorXd * v : {&b, &l, &u, &b2, &l2, &u2})
      v->setConstant(9, S);
  }
  AssignmentTarget make(int start, int size)
  {
    reset();
    range = std::make_shared<Range>(start, size);
    if(t == Type::DOUBLE_SIDED)
      return AssignmentTarget(range, A, l, u, r);
    if(r == RHS::ZERO)
      return AssignmentTarget(range, MatrixRef(A), t);
    return AssignmentTarget(range, A, b, t, r);
  }
};

template<typename T>
std::string onlyRange(const T & M, int start, int n, const char * name)
{
  for(int i = 0; i < M.rows(); ++i)
    if(i < start || i >= start + n)
      for(int j = 0; j < M.cols(); ++j)
        if(M(i, j) != S)
          return cat(name, "(", i, ",", j, ") written outside of rows ", start, "..", start + n - 1);
  return "";
}

void checkTarget(Ctx & c, World & W, const Target & T, const VariableVector & vars, const std::vector<Row> & want, const char * when)
{
  const MatrixXd & A = T.which ? T.A2 : T.A;
  const MatrixXd & Ao = T.which ? T.A : T.A2;
  const VectorXd & b = T.which ? T.b2 : T.b;
  const VectorXd & l = T.which ? T.l2 : T.l;
  const VectorXd & u = T.which ? T.u2 : T.u;
  int n = T.range->dim, st = T.range->start;
  bool dbl = T.t == Type::DOUBLE_SIDED;
  for(const auto & m : {onlyRange(A, st, n, "A"), onlyRange(b, st, (dbl || T.r == RHS::ZERO) ? 0 : n, "b"), onlyRange(l, st, dbl ? n : 0, "l"),
                        onlyRange(u, st, dbl ? n : 0, "u"), onlyRange(Ao, 0, 0, "previous A")})
    c.check(m.empty(), "outside", [&] { return cat(when, ": ", m); });
  std::vector<bool> used(want.size(), false);
  for(int i = 0; i < n; ++i)
  {
    VectorXd a = VectorXd::Zero(N);
    for(const auto & v : vars.variables())
    {
      Range g = v->getMappingIn(vars);
      for(int j = 0; j < g.dim; ++j)
      {
        double val = A(st + i, g.start + j);
        if(val == S)
          val = 0; // a column of another variable
        a[W.pos.at(v.get()) + j] = val;
      }
    }
    c.check(A(st + i, N) == S, "outside", [&] { return cat(when, ": A written in a column of no variable"); });
    Row got = row(T.t, T.r, a, dbl ? 0 : b[st + i], dbl ? l[st + i] : b[st + i], dbl ? u[st + i] : b[st + i]);
    bool found = got.same(want[i]);
    c.check(found, "row", [&] { return cat(when, ": row ", i, " holds ", got.str(), " instead of ", want[i].str()); });
  }
}

/** the rows of the target expected from the weighted rows of the source */
std::vector<Row> expand(const std::vector<Row> & R, Type st, Type tt)
{
  if(!(st == Type::DOUBLE_SIDED && tt != Type::DOUBLE_SIDED))
    return R;
  std::vector<Row> o;
  for(int h = 0; h < 2; ++h)
    for(auto r : R)
    {
      // first half: the side of the target
      bool lower = (tt == Type::GREATER_THAN) == (h == 0);
      if(lower)
        r.hi = 1e300;
      else
        r.lo = -1e300;
      o.push_back(r);
    }
  return o;
}

VectorXd aniso(int m, int k) { return VectorXd::LinSpaced(m, 4. + k, 0.25); }

void assign(Ctx & c)
{
  World W;
  Type st = types[c.choose(4)];
  RHS sr = rhss[c.choose(3)];
  Type tt = types[c.choose(4)];
  RHS tr = rhss[c.choose(3)];
  if((st == Type::DOUBLE_SIDED && sr == RHS::ZERO) || (tt == Type::DOUBLE_SIDED && tr == RHS::ZERO))
    c.prune();
  note(c, "source ", tname(st), " ", rname(sr), ", target ", tname(tt), " ", rname(tr));

  // structure of the source
  struct Shape
  {
    std::vector<VariablePtr> v;
    std::vector<int> f;
    const char * n;
  };
  std::vector<Shape> shapes = {{{W.x}, {1}, "I x"},         {{W.x}, {2}, "-I x"},        {{W.x, W.y}, {0, 1}, "A x + I y"}, {{W.y, W.x}, {2, 0}, "-I y + A x"},
                               {{W.x}, {4}, "D x"},         {{W.xb, W.y}, {0, 0}, "A xb + B y"}, {{W.y, W.x}, {3, 1}, "0 y + I x"}, {{W.xb, W.xa, W.w}, {0, 0, 0}, "A xb + B xa + C w"}};
  const auto & sh = shapes[c.choose(static_cast<int>(shapes.size()))];
  Src src;
  src.make(st, sr, 2, sh.v, sh.f);
  note(c, "source ", sh.n);

  // substitutions
  std::vector<Sub> subs;
  auto addSub = [&](VariablePtr x, RHS r, std::vector<VariablePtr> v, std::vector<int> f) {
    auto s = std::make_shared<Src>();
    s->make(Type::EQUAL, r, x->size(), v, f);
    subs.push_back({x, s});
  };
  int sc = c.choose(9);
  switch(sc)
  {
    case 1:
      addSub(W.x, RHS::AS_GIVEN, {W.x, W.y}, {1, 0});
      break;
    case 2:
      addSub(W.x, RHS::OPPOSITE, {W.y, W.x, W.w}, {1, 0, 0});
      break;
    case 3:
      addSub(W.xb, RHS::AS_GIVEN, {W.xb, W.w}, {0, 0});
      break;
    case 4:
      addSub(W.x, RHS::ZERO, {W.x}, {1});
      break;
    case 5:
      addSub(W.x, RHS::ZERO, {W.x, W.w}, {4, 0});
      break;
    case 6:
      addSub(W.x, RHS::AS_GIVEN, {W.x, W.y}, {2, 0});
      addSub(W.y, RHS::OPPOSITE, {W.y, W.w}, {0, 0});
      break;
    case 7:
      addSub(W.xb, RHS::AS_GIVEN, {W.xb, W.xa}, {0, 0});
      break;
    case 8:
      addSub(W.y, RHS::AS_GIVEN, {W.y, W.x}, {0, 2});
      break;
  }
  hint::internal::Substitutions S;
  for(const auto & s : subs)
  {
    S.add(hint::Substitution(s.s->c, s.x));
    note(c, "substitute ", s.x->name(), " form ", sc);
  }
  S.finalize();
  S.updateSubstitutions();
  bool nonZeroSub = sc != 0 && sc != 4 && sc != 5;

  // variables of the problem, in two different orders
  std::vector<VariablePtr> rest;
  bool xsub = false, ysub = false, xbsub = false;
  for(const auto & s : subs)
  {
    xsub = xsub || s.x == W.x;
    ysub = ysub || s.x == W.y;
    xbsub = xbsub || s.x == W.xb;
  }
  if(!xsub)
  {
    bool split = xbsub || (sc == 0 && sh.v[0] == W.xb);
    if(!split)
      rest.push_back(W.x);
    else
    {
      rest.push_back(W.xa);
      if(!xbsub)
        rest.push_back(W.xb);
    }
  }
  if(!ysub)
    rest.push_back(W.y);
  VariableVector vars[2];
  vars[0].add(W.q);
  for(const auto & v : rest)
    vars[0].add(v);
  vars[0].add(W.w);
  vars[1].add(W.w);
  for(auto it = rest.rbegin(); it != rest.rend(); ++it)
    vars[1].add(*it);
  vars[1].add(W.q);
  int order = 0;

  // weights
  using namespace requirements;
  int wc = c.choose(5);
  double wgt = 1, scal = 1;
  VectorXd an = VectorXd::Ones(2);
  SolvingRequirementsPtr req;
  switch(wc)
  {
    case 0:
      req = std::make_shared<SolvingRequirementsWithCallbacks>(PriorityLevel(0));
      break;
    case 1:
      wgt = 9;
      req = std::make_shared<SolvingRequirementsWithCallbacks>(PriorityLevel(0), Weight(wgt));
      break;
    case 2:
      an = aniso(2, 0);
      req = std::make_shared<SolvingRequirementsWithCallbacks>(PriorityLevel(0), AnisotropicWeight(an));
      break;
    case 3:
      wgt = 4;
      scal = 10;
      an = aniso(2, 0);
      req = std::make_shared<SolvingRequirementsWithCallbacks>(PriorityLevel(0), Weight(wgt), AnisotropicWeight(an));
      break;
    case 4:
      scal = 100;
      req = std::make_shared<SolvingRequirementsWithCallbacks>(PriorityLevel(0));
      break;
  }
  note(c, "weight ", wgt, " scalarisation ", scal, " anisotropic ", an.transpose());

  // target
  Target T;
  T.t = tt;
  T.r = tr;
  int m = st == Type::DOUBLE_SIDED && tt != Type::DOUBLE_SIDED ? 4 : 2;
  int sizeErr = c.thorough ? c.choose(2) : (wc == 0 && sc == 0 && c.flip());
  AssignmentTarget at = T.make(1, m + sizeErr);
  bool accept = ((st == Type::EQUAL) ? (tt == Type::EQUAL || tt == Type::DOUBLE_SIDED) : tt != Type::EQUAL) && !sizeErr
                && !(tr == RHS::ZERO && (sr != RHS::ZERO || nonZeroSub));
  std::unique_ptr<Assignment> a;
  bool refused = false;
  try
  {
    a.reset(new Assignment(src.c, req, at, vars[order], sc ? &S : nullptr, scal));
  }
  catch(const std::exception &)
  {
    refused = true;
  }
  // a substitution whose offset is zero, but not known to be so forever, can be refused for a target without right-hand side
  // (the library does not say otherwise), and so can be the substitution of a variable of which the source only uses a part
  bool partOf = false;
  for(const auto & s : subs)
    for(const auto & v : sh.v)
      partOf = partOf || (s.x != v && s.x->contains(*v));
  if(refused && ((tr == RHS::ZERO && sc) || partOf))
    return;
  c.check(!(accept && refused), "refused", [&] { return cat("a compatible assignment was refused"); });
  c.check(accept || refused, "accepted", [&] { return cat("incompatible conventions or sizes were accepted"); });
  if(refused)
    return;
  // AssignmentTarget is copied by the assignment
  auto expected = [&] {
    auto R = src.rows(W);
    for(const auto & s : subs)
      substitute(W, s, R);
    for(size_t i = 0; i < R.size(); ++i)
    {
      double g = std::sqrt(wgt) * scal * std::sqrt(an[static_cast<int>(i)]);
      R[i].a *= g;
      R[i].lo *= g;
      R[i].hi *= g;
    }
    return expand(R, st, tt);
  };
  a->run();
  checkTarget(c, W, T, vars[order], expected(), "first run");
  bool deep = wc == 3 && (sc == 0 || sc == 2 || sc == 3);
  int depth = c.choose((c.thorough ? 3 : 2) + deep);
  for(int d = 0; d < depth; ++d)
  {
    const char * when = "";
    switch(c.choose(10))
    {
      case 0:
        when = "after changing the data of the source";
        src.set(src.k + 1);
        break;
      case 1:
        when = "after changing the weight";
        wgt = wgt == 25 ? 16 : 25;
        req->weight() = wgt;
        if(a->changeScalarWeightIsAllowed())
          a->onUpdateWeights(true, false);
        else
          *a = Assignment::reprocess(*a, vars[order], sc ? &S : nullptr);
        break;
      case 2:
        when = "after changing the anisotropic weight";
        an = aniso(2, d + 1);
        req->anisotropicWeight() = an;
        if(a->changeVectorWeightIsAllowed())
          a->onUpdateWeights(false, true);
        else
          *a = Assignment::reprocess(*a, vars[order], sc ? &S : nullptr);
        break;
      case 3:
        when = "after changing both weights";
        wgt = 0.25;
        an = aniso(2, d + 5);
        req->weight() = wgt;
        req->anisotropicWeight() = an;
        if(a->changeVectorWeightIsAllowed() && a->changeScalarWeightIsAllowed())
          a->onUpdateWeights();
        else
          *a = Assignment::reprocess(*a, vars[order], sc ? &S : nullptr);
        break;
      case 4:
        when = "after reordering the variables";
        T.reset();
        order = 1 - order;
        a->onUpdatedMapping(vars[order], true);
        break;
      case 5:
        when = "after moving the range";
        T.reset();
        a->target().range().start = a->target().range().start == 1 ? 4 : 0;
        a->onUpdatedTarget();
        break;
      case 6:
        when = "after changing the data of the target";
        T.reset();
        T.which = 1 - T.which;
        if(tt == Type::DOUBLE_SIDED)
          a->target().changeData(T.which ? T.A2 : T.A, T.which ? T.l2 : T.l, T.which ? T.u2 : T.u);
        else if(tr == RHS::ZERO)
          a->target().setA(T.which ? T.A2 : T.A);
        else
          a->target().changeData(MatrixRef(T.which ? T.A2 : T.A), VectorRef(T.which ? T.b2 : T.b));
        a->onUpdatedTarget();
        break;
      case 7:
        when = "after changing the data of the substitutions";
        if(!sc)
          c.prune();
        for(auto & s : subs)
          s.s->set(s.s->k + 1);
        S.updateSubstitutions();
        break;
      case 8:
        when = "after resetting the anisotropic weight to its default";
        an = VectorXd::Ones(2);
        req->anisotropicWeight() = AnisotropicWeight();
        if(a->changeVectorWeightIsAllowed())
          a->onUpdateWeights(false, true);
        else
          *a = Assignment::reprocess(*a, vars[order], sc ? &S : nullptr);
        break;
      case 9:
      {
        when = "after moving the assignment";
        Assignment b(std::move(*a));
        a.reset(new Assignment(std::move(b)));
        // moved twice
        break;
      }
    }
    note(c, when);
    if(d == 0)
      a->run(); // running twice is the same
    a->run();
    checkTarget(c, W, T, vars[order], expected(), when);
  }
}

/** bounds: intersection of several diagonal constraints on the same variable */
void bounds(Ctx & c)
{
  World W;
  Type tt = types[1 + c.choose(3)];
  Target T;
  T.t = tt;
  T.r = RHS::AS_GIVEN;
  T.reset();
  T.range = std::make_shared<Range>(1, 2);
  bool dbl = tt == Type::DOUBLE_SIDED;
  auto make = [&] { return dbl ? AssignmentTarget(T.range, T.l, T.u) : AssignmentTarget(T.range, VectorRef(T.b), tt); };
  note(c, "bound target ", tname(tt));
  std::vector<std::unique_ptr<Src>> src;
  std::vector<std::unique_ptr<Assignment>> as;
  auto verify = [&](const char * when) {
    for(auto & a : as)
      a->run();
    Vector2d lo(-1e300, -1e300), hi(1e300, 1e300);
    for(auto & s : src)
    {
      auto R = s->rows(W);
      for(int i = 0; i < 2; ++i)
      {
        double d = R[i].a[i], p = R[i].lo / d, q = R[i].hi / d;
        lo[i] = std::max(lo[i], std::min(p, q));
        hi[i] = std::min(hi[i], std::max(p, q));
      }
    }
    int st = T.range->start;
    const VectorXd & l = T.which ? T.l2 : T.l;
    const VectorXd & u = T.which ? T.u2 : T.u;
    const VectorXd & b = T.which ? T.b2 : T.b;
    for(const auto & m : {onlyRange(b, st, dbl ? 0 : 2, "b"), onlyRange(l, st, dbl ? 2 : 0, "l"), onlyRange(u, st, dbl ? 2 : 0, "u")})
      c.check(m.empty(), "outside", [&] { return cat(when, ": ", m); });
    auto eq = [](double p, double q) { return (p > INF && q > INF) || (p < -INF && q < -INF) || std::abs(p - q) < 1e-9 * (1 + std::abs(p)); };
    for(int i = 0; i < 2; ++i)
    {
      if(tt != Type::LOWER_THAN)
      {
        double v = dbl ? l[st + i] : b[st + i];
        c.check(eq(v, lo[i]), "lower", [&] { return cat(when, ": lower bound ", i, " is ", v, " instead of ", lo[i]); });
      }
      if(tt != Type::GREATER_THAN)
      {
        double v = dbl ? u[st + i] : b[st + i];
        c.check(eq(v, hi[i]), "upper", [&] { return cat(when, ": upper bound ", i, " is ", v, " instead of ", hi[i]); });
      }
    }
  };
  int n = 1 + c.choose(c.thorough ? 3 : 2);
  for(int k = 0; k < n; ++k)
  {
    Type st = types[c.choose(4)];
    RHS sr = rhss[c.choose(3)];
    if(st == Type::DOUBLE_SIDED && sr == RHS::ZERO)
      c.prune();
    static const int forms[] = {1, 2, 4, 5, 6, 0, 3};
    int f = forms[c.choose(k == 0 ? 7 : 5)];
    note(c, "source ", tname(st), " ", rname(sr), " form ", f);
    std::unique_ptr<Src> s(new Src);
    s->make(st, sr, 2, {W.x}, {f});
    s->set(k);
    // whether this can be a bound of the target
    bool bound = f == 1 || f == 2 || f >= 4;
    bool pos = f == 1 || f == 4, neg = f == 2 || f == 5;
    bool accept = bound && (dbl || ((st == tt) && pos) || (st != tt && st != Type::EQUAL && st != Type::DOUBLE_SIDED && neg));
    std::unique_ptr<Assignment> a;
    bool refused = false;
    try
    {
      a.reset(new Assignment(s->c, make(), W.x, src.empty()));
    }
    catch(const std::exception &)
    {
      refused = true;
    }
    c.check(accept != refused, "refused", [&] { return cat(accept ? "a constraint usable as bound was refused" : "a constraint that can't be used as such bound was accepted"); });
    if(refused)
      return;
    src.push_back(std::move(s));
    as.push_back(std::move(a));
  }
  verify("first run");
  int depth = c.choose(c.thorough ? 3 : 2);
  for(int d = 0; d < depth; ++d)
  {
    const char * when = "";
    switch(c.choose(4))
    {
      case 0:
        when = "after changing the data";
        for(auto & s : src)
          s->set(s->k + 2);
        break;
      case 1:
        when = "after moving the range";
        T.reset();
        for(auto & a : as)
          a->target().range().start = T.range->start == 1 ? 4 : T.range->start;
        for(auto & a : as)
          a->onUpdatedTarget();
        break;
      case 2:
        when = "after changing the data of the target";
        T.reset();
        T.which = 1 - T.which;
        for(auto & a : as)
        {
          if(dbl)
            a->target().changeData(VectorRef(T.which ? T.l2 : T.l), VectorRef(T.which ? T.u2 : T.u));
          else
            a->target().setb(T.which ? T.b2 : T.b);
          a->onUpdatedTarget();
        }
        break;
      case 3:
        when = "after moving the assignments";
        for(auto & a : as)
        {
          Assignment b(std::move(*a));
          a.reset(new Assignment(std::move(b)));
        }
        break;
    }
    note(c, when);
    verify(when);
  }
}

// ----- compiled assignments: every combination against plain loops
using namespace tvm::scheme::internal;

double wat(WeightMult W, int i, double s, const VectorXd & d) { return W == NONE ? 1 : W == MINUS ? -1 : W == SCALAR ? s : d[i]; }
double op(AssignType A, double to, double v)
{
  switch(A)
  {
    case COPY:
      return v;
    case ADD:
      return to + v;
    case SUB:
      return to - v;
    case MIN:
      return std::min(to, v);
    default:
      return std::max(to, v);
  }
}


template<typename T>
struct Arg
{
  Ref<T> to;
  Ref<const T> from;
  const double & s;
  const VectorXd & diag;
  Ref<const MatrixXd> mult;
  double cst;
};

template<typename T, AssignType A, WeightMult W, MatrixMult M, tvm::scheme::internal::Source F>
CompiledAssignmentWrapper<T> wrap(const Arg<T> & a)
{
  using CW = CompiledAssignmentWrapper<T>;
  if constexpr(F == ZERO)
    return CW::template make<A, W, M, F>(a.to);
  else
  {
    auto withFrom = [&](auto &&... r) {
      if constexpr(F == CONSTANT)
        return CW::template make<A, W, M, F>(a.to, a.cst, r...);
      else
        return CW::template make<A, W, M, F>(a.to, a.from, r...);
    };
    auto withWeight = [&](auto &&... r) {
      if constexpr(W == SCALAR)
        return withFrom(a.s, r...);
      else if constexpr(W == DIAGONAL)
        return withFrom(a.diag, r...);
      else
        return withFrom(r...);
    };
    if constexpr(M == IDENTITY)
      return withWeight();
    else
      return withWeight(a.mult);
  }
}

template<typename T>
using Factory = CompiledAssignmentWrapper<T> (*)(const Arg<T> &);
const int NF = 5 * 4 * 3 * 3;

template<typename T, int I>
constexpr Factory<T> factory()
{
  constexpr AssignType A = static_cast<AssignType>(I % 5);
  constexpr WeightMult W = static_cast<WeightMult>((I / 5) % 4);
  constexpr MatrixMult M = static_cast<MatrixMult>((I / 20) % 3);
  constexpr auto F = static_cast<tvm::scheme::internal::Source>(I / 60);
  // constants are only for vectors
  if constexpr(F == CONSTANT && T::ColsAtCompileTime != 1)
    return nullptr;
  // a zero source takes neither weight nor matrix
  else if constexpr(F == ZERO && (W != NONE || M != IDENTITY))
    return nullptr;
  else
    return &wrap<T, A, W, M, F>;
}
template<typename T, int... I>
std::vector<Factory<T>> table(std::integer_sequence<int, I...>)
{ return {factory<T, I>()...}; }

template<typename T>
void compiledT(Ctx & c, int idx)
{
  static const std::vector<Factory<T>> tab = table<T>(std::make_integer_sequence<int, NF>());
  if(!tab[idx])
    c.prune();
  const bool vec = T::ColsAtCompileTime == 1;
  AssignType A = static_cast<AssignType>(idx % 5);
  WeightMult W = static_cast<WeightMult>((idx / 5) % 4);
  MatrixMult M = static_cast<MatrixMult>((idx / 20) % 3);
  auto F = static_cast<tvm::scheme::internal::Source>(idx / 60);
  note(c, vec ? "vector" : "matrix", " A", int(A), " W", int(W), " M", int(M), " F", int(F));

  // storage; the target is a block of a bigger matrix
  MatrixXd from(6, 6), from2(6, 6), to(8, 8), to2(8, 8), mult(6, 6);
  for(int i = 0; i < 6; ++i)
    for(int j = 0; j < 6; ++j)
    {
      from(i, j) = (i * 7 + j * 3) % 11 - 5;
      from2(i, j) = (i * 5 + j * 2) % 7 - 2.5;
      mult(i, j) = (i * 4 + j * 9) % 13 - 5.5;
    }
  mult.diagonal().array() += 20;
  for(int i = 0; i < 8; ++i)
    for(int j = 0; j < 8; ++j)
    {
      to(i, j) = (i * 3 + j * 5) % 13 - 6;
      to2(i, j) = (i * 2 + j * 5) % 11 - 4;
    }
  int r = 1 + c.choose(3), k = 1 + c.choose(3), n = vec ? 1 : 1 + c.choose(3);
  // target is r x n; vector: mult (r x k) * from (k); matrix: from (r x k) * mult (k x n)
  if(M != GENERAL && k != 1)
    c.prune();
  if(M != GENERAL)
    k = vec ? r : n;
  if(M == INVERSE_DIAGONAL && vec)
    k = r;
  double s = -2.5, cst = 1.75;
  VectorXd diag = VectorXd::LinSpaced(r, 1.5, -2.);
  MatrixXd mu = vec ? MatrixXd(mult.topLeftCorner(r, k)) : MatrixXd(mult.topLeftCorner(k, n));
  int fr = vec ? k : r, fc = vec ? 1 : k;

  int toIn = 0, fromIn = 0;
  auto toBlock = [&](int w) -> Ref<T> {
    MatrixXd & m = w ? to2 : to;
    if constexpr(T::ColsAtCompileTime == 1)
      return m.col(2).segment(w ? 3 : 1, r);
    else
      return m.block(w ? 3 : 1, w ? 1 : 2, r, n);
  };
  auto fromBlock = [&](int w) -> Ref<const T> {
    MatrixXd & m = w ? from2 : from;
    if constexpr(T::ColsAtCompileTime == 1)
      return m.col(1).segment(1, fr);
    else
      return m.block(1, 1, fr, fc);
  };
  MatrixXd rto = to, rto2 = to2;
  auto refBlock = [&](int w) { return (w ? rto2 : rto).block(w ? 3 : 1, vec ? 2 : (w ? 1 : 2), r, n); };

  Arg<T> arg{toBlock(0), fromBlock(0), s, diag, mu, cst};
  using CW = CompiledAssignmentWrapper<T>;
  auto cur = std::make_unique<CW>(tab[idx](arg));
  std::unique_ptr<CW> old; // what was copied from
  auto step = [&](const char * when) {
    cur->run();
    MatrixXd src;
    if(F == CONSTANT)
      src = MatrixXd::Constant(fr, fc, cst);
    else if(F == ZERO)
      src = MatrixXd::Zero(fr, fc);
    else
      src = fromBlock(fromIn);
    MatrixXd v(r, n);
    for(int i = 0; i < r; ++i)
      for(int j = 0; j < n; ++j)
      {
        double x = 0;
        if(F == ZERO)
          x = 0;
        else if(M == IDENTITY)
          x = src(i, j);
        else if(M == INVERSE_DIAGONAL)
          x = vec ? src(i, 0) / mu(i, i) : src(i, j) / mu(j, j);
        else
          for(int l = 0; l < k; ++l)
            x += vec ? mu(i, l) * src(l, 0) : src(i, l) * mu(l, j);
        v(i, j) = wat(W, i, s, diag) * x;
      }
    auto R = refBlock(toIn);
    for(int i = 0; i < r; ++i)
      for(int j = 0; j < n; ++j)
        R(i, j) = op(A, R(i, j), v(i, j));
    c.check((to - rto).cwiseAbs().maxCoeff() < 1e-9 && (to2 - rto2).cwiseAbs().maxCoeff() < 1e-9, "compiled", [&] {
      return cat(when, ": got\n", toBlock(toIn), "\ninstead of\n", refBlock(toIn), "\n(or something written elsewhere)");
    });
  };
  step("first run");
  int depth = c.choose(c.thorough ? 5 : 4);
  for(int d = 0; d < depth; ++d)
    switch(c.choose(7))
    {
      case 0:
        note(c, "data change");
        from.array() += 1;
        from2.array() *= 2;
        s += 1;
        diag.array() -= 0.75;
        mu.array() *= 1.5;
        step("data change");
        break;
      case 1:
      {
        note(c, "from");
        bool cstF = F == CONSTANT, thrown = false;
        if(cstF)
        {
          cst = -3;
          cur->from(cst);
          try
          {
            cur->from(fromBlock(1));
          }
          catch(const std::exception &)
          {
            thrown = true;
          }
        }
        else
        {
          fromIn = 1 - fromIn;
          cur->from(fromBlock(fromIn));
          try
          {
            cur->from(2.);
          }
          catch(const std::exception &)
          {
            thrown = true;
          }
        }
        c.check(thrown, "from", "a source of the wrong kind was accepted");
        step("from");
        break;
      }
      case 2:
        note(c, "to");
        toIn = 1 - toIn;
        cur->to(toBlock(toIn));
        step("to");
        break;
      case 3:
      {
        note(c, "copy, change the original");
        auto o = std::make_unique<CW>(*cur);
        cur->to(toBlock(1 - toIn));
        old = std::move(cur);
        cur = std::move(o);
        step("copy");
        break;
      }
      case 4:
      {
        note(c, "move");
        auto o = std::make_unique<CW>(std::move(*cur));
        cur = std::move(o);
        step("move");
        break;
      }
      case 5:
      {
        note(c, "copy assignment");
        auto o = std::make_unique<CW>(tab[idx](arg));
        *o = *cur;
        cur = std::move(o);
        step("copy assignment");
        break;
      }
      case 6:
      {
        note(c, "copy assignment over an assignment of another kind");
        CW o = CW::template make<ADD, MINUS, IDENTITY, EXTERNAL>(arg.to, arg.to);
        o = *cur;
        cur.reset(new CW(o));
        step("copy assignment of another kind");
        break;
      }
    }
}

void compiled(Ctx & c)
{
  bool vec = c.flip();
  int idx = c.choose(NF);
  if(vec)
    compiledT<VectorXd>(c, idx);
  else
    compiledT<MatrixXd>(c, idx);
}
} // namespace

int main(int argc, char ** argv)
{
  return run(
      argc, argv, "C15",
      {{"assign", "every source type x right-hand side x 8 structures into every target type x right-hand side x 5 weightings x 9 substitutions (general, +-identity, zero, chained, on parts of variables), then every sequence of up to 1 (thorough: 2; one more with weights and 3 of the substitutions) changes of data, weights, mapping, target, substitution data", assign, 5},
       {"bounds", "1-2 (3) constraints of every kind intersected in the bounds of a variable, single- and double-sided, then every sequence of up to 1 (2) changes", bounds, 3},
       {"compiled", "every kind of compiled assignment on blocks of 1-3 rows and columns, then every sequence of up to 3 (4) changes of data, source or target, copies and moves", compiled, 2}},
      {"double arithmetic compared with relative tolerance 1e-9", "CUSTOM matrix products (unused by the library, not instantiable) excluded"});
}
