// C14: linear constraints, linear functions and linearised tasks against their declaration, column by column.
#include "mc.h"

#include <Eigen/LU>

#include <tvm/Space.h>
#include <tvm/Task.h>
#include <tvm/Variable.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/constraint/internal/LinearizedTaskConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/abstract/Function.h>
#include <tvm/graph/CallGraph.h>
#include <tvm/graph/internal/Inputs.h>
#include <tvm/task_dynamics/Constant.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/OneStepToZero.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>

#include <map>
#include <memory>
using namespace tvm;
using namespace mc;
using namespace Eigen;
using constraint::RHS;
using constraint::Type;
using constraint::BasicLinearConstraint;
using function::BasicLinearFunction;
using tvm::internal::MatrixProperties;

namespace
{
/** the scalar unknowns: variable, order, index */
struct World
{
  VariablePtr x, y, xs, xt, dx;
  std::vector<VariablePtr> all;
  VectorXd xv, yv, dxv, ddxv, dyv;
  World()
  {
    x = Space(3).createVariable("x");
    y = Space(1).createVariable("y");
    xs = x->subvariable(Space(2), "xs", Space(1)); // x[1], x[2]
    xt = x->subvariable(Space(1), "xt", Space(0)); // x[0]
    dx = dot(x);
    all = {x, y, xs, xt, dx};
    dot(x, 2);
    dot(y);
    move(0);
  }
  void move(int k)
  {
    for(int i = 0; i < 3; ++i)
    {
      x->value(VectorXd(Vector3d(1 + k, 2, -1 + k)));
      dx->value(VectorXd(Vector3d(0.5, -k, 3)));
      dot(x, 2)->value(VectorXd(Vector3d(k, 1, -2)));
      y->value(VectorXd::Constant(1, 4 - k));
      dot(y)->value(VectorXd::Constant(1, -0.5 + k));
      dot(y, 2)->value(VectorXd::Constant(1, 7 - 2 * k));
    }
  }
  /** column in a row vector of unknowns [x0 x1 x2 dx0 dx1 dx2 ddx0.. y dy ddy] */
  int base(const Variable & v) const
  {
    int k = v.derivativeNumber();
    const Variable * p = &v;
    VariablePtr h;
    if(k > 0)
    {
      h = v.basePrimitive();
      p = h.get();
    }
    if(y->contains(*p)) return 9 + k;
    return 3 * k + p->subvariableRange().start;
  }
  static const int N = 12;
};
MatrixXd mat(int m, int n, int k)
{
  MatrixXd A(m, n);
  for(int i = 0; i < m; ++i)
    for(int j = 0; j < n; ++j) A(i, j) = ((i * 7 + j * 3 + k * 5) % 11) - 4 + 0.25 * k;
  return A;
}
VectorXd vec(int m, int k)
{
  VectorXd v(m);
  for(int i = 0; i < m; ++i) v[i] = ((i * 5 + k * 3) % 7) - 2.5;
  return v;
}
bool same(const MatrixXd & a, const MatrixXd & b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= 1e-9 * (1 + b.cwiseAbs().maxCoeff())); }
template<typename F>
bool throws(F && f)
{
  try
  {
    f();
  }
  catch(const std::exception &)
  {
    return true;
  }
  return false;
}
/** properties must be true of the matrix */
template<typename Obj>
std::string falseProperty(const Obj & J)
{
  MatrixXd M = J;
  const auto & p = J.properties();
  double tol = 1e-12;
  bool sq = M.rows() == M.cols();
  MatrixXd I = MatrixXd::Identity(M.rows(), M.cols());
  MatrixXd D = M;
  for(int i = 0; i < std::min(M.rows(), M.cols()); ++i) D(i, i) = 0;
  if(p.isZero() && !M.isZero(tol)) return "zero";
  if(p.isZero() && !sq) return ""; // rectangular: the other notions are not defined
  if(p.isIdentity() && !(sq && (M - I).isZero(tol))) return "identity";
  if(p.isMinusIdentity() && !(sq && (M + I).isZero(tol))) return "minus identity";
  if(p.isMultipleOfIdentity() && !(sq && (M - M(0, 0) * I).isZero(tol))) return "multiple of identity";
  if(p.isDiagonal() && !D.isZero(tol)) return "diagonal";
  if(p.isInvertible() && !(sq && M.determinant() != 0)) return "invertible";
  return "";
}
template<typename T>
MatrixXd columns(Ctx & c, const World & w, const T & f, int m)
{
  MatrixXd J = MatrixXd::Zero(m, World::N);
  for(const auto & v : f.variables().variables())
  {
    auto b = f.jacobian(*v);
    MatrixXd B = b;
    c.check(B.rows() == m && B.cols() == v->size(), "jacobian-size", [&] { return cat("Jacobian for ", v->name(), " is ", B.rows(), "x", B.cols()); });
    J.middleCols(w.base(*v), v->size()) += B;
    std::string p = falseProperty(b);
    c.check(p.empty(), "jacobian-property", [&] { return cat("Jacobian for ", v->name(), " said ", p, ":\n", B); });
  }
  return J;
}
struct Decl
{
  std::vector<VariablePtr> x;
  std::vector<MatrixXd> A;
  bool ok = true;
  /** the sum of the terms */
  MatrixXd cols(const World & w, int m) const
  {
    MatrixXd J = MatrixXd::Zero(m, World::N);
    for(size_t i = 0; i < x.size(); ++i) J.middleCols(w.base(*x[i]), x[i]->size()) += A[i];
    return J;
  }
};
/** a list of 1 or 2 (variable, matrix), possibly with repeated or overlapping variables or wrong sizes */
Decl declaration(Ctx & c, World & w, int m, bool wrong)
{
  Decl d;
  int n = 1 + c.choose(c.thorough ? 3 : 2);
  for(int i = 0; i < n; ++i)
  {
    VariablePtr v = w.all[static_cast<size_t>(c.choose(5))];
    for(auto & u : d.x)
      if(v->intersects(*u) && !u->contains(*v)) d.ok = false; // would need to merge two terms: refused
    d.x.push_back(v);
    d.A.push_back(mat(m, v->size(), i + 1));
  }
  if(wrong)
  {
    int i = c.choose(n);
    auto & A = d.A[static_cast<size_t>(i)];
    bool row = n > 1 && i > 0 && c.flip();
    A = mat(row ? m + 1 : m, row ? static_cast<int>(A.cols()) : static_cast<int>(A.cols()) + (c.flip() ? 1 : -1), 1);
    d.ok = false;
  }
  return d;
}
std::string show(const Decl & d)
{
  std::string s;
  for(size_t i = 0; i < d.x.size(); ++i) s += cat(i ? " + " : "", "A", i, "(", d.A[i].rows(), "x", d.A[i].cols(), ") ", d.x[i]->name());
  return s;
}
const RHS rhss[] = {RHS::ZERO, RHS::AS_GIVEN, RHS::OPPOSITE};
const Type types[] = {Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED};
typedef constraint::abstract::Constraint Cst;
/** Only one of l, u, e exist according to the type */
void outputs(Ctx & c, const std::shared_ptr<Cst> & k, Type t, RHS r)
{
  bool l = r != RHS::ZERO && (t == Type::GREATER_THAN || t == Type::DOUBLE_SIDED), u = r != RHS::ZERO && (t == Type::LOWER_THAN || t == Type::DOUBLE_SIDED),
       e = r != RHS::ZERO && t == Type::EQUAL;
  c.check(k->type() == t && k->rhs() == r && k->isEquality() == (t == Type::EQUAL), "type", "type and right-hand side convention");
  c.check(k->isOutputEnabled(Cst::Output::L) == l && k->isOutputEnabled(Cst::Output::U) == u && k->isOutputEnabled(Cst::Output::E) == e, "rhs-outputs", "enabled right-hand sides");
  tvm::graph::internal::Inputs in;
  c.check(throws([&] { in.addInput(k, Cst::Output::L); }) == !l, "rhs-access", "l used as an input");
  c.check(throws([&] { in.addInput(k, Cst::Output::U); }) == !u, "rhs-access", "u used as an input");
  c.check(throws([&] { in.addInput(k, Cst::Output::E); }) == !e, "rhs-access", "e used as an input");
  c.check((k->l().size() > 0) == l && (k->u().size() > 0) == u && (k->e().size() > 0) == e, "rhs-size", "absent right-hand side");
}

// ---------------------------------------------------------------- constraints given by matrices
void matrices(Ctx & c)
{
  World w;
  int m = c.flip() ? 2 : 1;
  Type t = types[c.choose(4)];
  RHS r = rhss[c.choose(3)];
  int ctor = c.choose(3); // 0: no right-hand side, 1: right-hand side(s), 2: uninitialised
  int err = ctor == 2 ? 0 : c.choose(5); // 1: wrong matrix, 2: wrong vector, 3: number of matrices, 4: wrong second vector
  if(m == 1 && ctor != 1 && err == 0 && r != RHS::AS_GIVEN && !c.thorough) c.prune();
  Decl d = declaration(c, w, m, err == 1);
  if(err && d.x.size() > 1 && d.x[0] == d.x[1]) c.prune();
  if((err == 2 && ctor != 1) || (err == 4 && (ctor != 1 || t != Type::DOUBLE_SIDED))) c.prune();
  std::vector<MatrixConstRef> A;
  for(auto & a : d.A) A.push_back(a);
  auto x = d.x;
  if(err == 3)
  {
    if(c.flip())
      x.pop_back();
    else
      A.pop_back();
    if(A.empty() || x.empty()) c.prune();
  }
  VectorXd b1 = vec(err == 2 ? m + 1 : m, 1), b2 = vec(err == 4 ? m + 1 : m, 2);
  bool ok = d.ok && err == 0;
  RHS given = r;
  if(ctor == 0)
  {
    ok = ok && t != Type::DOUBLE_SIDED;
    if(r != RHS::ZERO) c.prune();
  }
  else if(ctor == 1)
    ok = ok && r != RHS::ZERO;
  else
    ok = ok && !(t == Type::DOUBLE_SIDED && r == RHS::ZERO);
  bool single = d.x.size() == 1 && err != 3 && c.flip();
  c.step([&] { return cat("constraint ", show(d), " type ", static_cast<int>(t), " rhs ", static_cast<int>(r), " ctor ", ctor, " error ", err, single ? " single" : ""); });
  std::shared_ptr<BasicLinearConstraint> k;
  bool th = throws([&] {
    if(ctor == 0)
      k = single ? std::make_shared<BasicLinearConstraint>(A[0], x[0], t) : std::make_shared<BasicLinearConstraint>(A, x, t);
    else if(ctor == 1 && t == Type::DOUBLE_SIDED)
      k = single ? std::make_shared<BasicLinearConstraint>(A[0], x[0], b1, b2, r) : std::make_shared<BasicLinearConstraint>(A, x, b1, b2, r);
    else if(ctor == 1)
      k = single ? std::make_shared<BasicLinearConstraint>(A[0], x[0], b1, t, r) : std::make_shared<BasicLinearConstraint>(A, x, b1, t, r);
    else
      k = single ? std::make_shared<BasicLinearConstraint>(m, x[0], t, r) : std::make_shared<BasicLinearConstraint>(m, x, t, r);
  });
  if(ctor == 2 && th && !d.ok) return;
  c.check(th == !ok, ok ? "accepted" : "refused", [&] { return ok ? "valid declaration refused" : "invalid declaration accepted"; });
  if(th) return;
  MatrixXd J = d.cols(w, m);
  VectorXd l, u, e;
  if(ctor == 1)
  {
    if(t == Type::EQUAL) e = b1;
    if(t == Type::GREATER_THAN) l = b1;
    if(t == Type::LOWER_THAN) u = b1;
    if(t == Type::DOUBLE_SIDED) l = b1, u = b2;
  }
  bool repeated = k->variables().numberOfVariables() != static_cast<int>(d.x.size());
  if(ctor == 2)
  {
    if(repeated) return;
    // the data are given one by one
    for(size_t i = 0; i < d.x.size(); ++i)
      if(d.x.size() == 1 && c.flip())
        k->A(d.A[0]);
      else
        k->A(d.A[i], *d.x[i]);
    if(given != RHS::ZERO)
    {
      if(t == Type::DOUBLE_SIDED)
      {
        k->l(l = vec(m, 4));
        k->u(u = vec(m, 5));
      }
      else
      {
        k->b(vec(m, 4));
        (t == Type::EQUAL ? e : t == Type::GREATER_THAN ? l : u) = vec(m, 4);
      }
    }
  }
  auto g = std::unique_ptr<tvm::graph::CallGraph>(new tvm::graph::CallGraph());
  auto in = std::make_shared<tvm::graph::internal::Inputs>();
  in->addInput(k, Cst::Output::Value);
  g->add(in);
  g->update();
  int depth = repeated ? 0 : c.choose((d.x.size() == 1 ? 3 : 2) + (c.thorough && d.x.size() < 3));
  for(int s = 0; s < depth; ++s)
  {
    if(c.flip()) g->execute();
    switch(c.choose(3))
    {
      case 0:
        w.move(s + 1);
        c.step([&] { return cat("variables move to ", s + 1); });
        break;
      case 1:
      {
        size_t i = d.x.size() == 1 ? 0 : static_cast<size_t>(c.choose(static_cast<int>(d.x.size())));
        int kind = c.choose(5); // right, wrong rows, wrong cols, unknown variable, with properties
        MatrixXd B = mat(m + (kind == 1), d.x[i]->size() + (kind == 2), 3 + s);
        MatrixProperties p(MatrixProperties::Constness(false));
        bool sq = m == d.x[i]->size();
        if(kind == 4)
        {
          B.setZero();
          p = MatrixProperties(MatrixProperties::ZERO);
          if(sq && c.flip())
          {
            B.setIdentity();
            B *= -1;
            p = MatrixProperties(MatrixProperties::MINUS_IDENTITY, MatrixProperties::Constness(true));
          }
        }
        c.step([&] { return cat("A(", B.rows(), "x", B.cols(), ", ", d.x[i]->name(), ") kind ", kind); });
        if(kind == 3)
        {
          VariablePtr z = Space(d.x[i]->size()).createVariable("z");
          c.check(throws([&] { k->A(B, *z); }), "refused", "matrix for a variable that is not in the constraint accepted");
        }
        else
        {
          bool shortcut = d.x.size() == 1 && c.flip();
          bool t2 = throws([&] {
            if(shortcut)
              kind == 4 ? k->A(B, p) : k->A(B);
            else
              kind == 4 ? k->A(B, *d.x[i], p) : k->A(B, *d.x[i]);
          });
          bool bad = kind == 1 || kind == 2;
          c.check(t2 == bad, "refused", [&] { return cat(bad ? "matrix of the wrong size accepted" : "matrix refused"); });
          if(!bad)
          {
            d.A[i] = B;
            J = d.cols(w, m);
          }
        }
        if(d.x.size() > 1 && c.choose(2) == 1) c.check(throws([&] { k->A(MatrixXd(mat(m, 1, 0))); }), "refused", "A without variable on a constraint with several");
        break;
      }
      case 2:
      {
        int which = c.choose(3); // b, l, u
        bool bad = c.flip();
        VectorXd v = vec(bad ? m + 1 : m, 6 + s);
        bool allowed = r != RHS::ZERO && (which == 0 ? t != Type::DOUBLE_SIDED : t == Type::DOUBLE_SIDED);
        c.step([&] { return cat(which == 0 ? "b" : which == 1 ? "l" : "u", "(size ", v.size(), ")"); });
        bool t2 = throws([&] { which == 0 ? k->b(v) : which == 1 ? k->l(v) : k->u(v); });
        c.check(t2 == (bad || !allowed), "refused", [&] { return cat("right-hand side ", t2 ? "refused" : "accepted"); });
        if(!t2) (which == 1 || (which == 0 && t == Type::GREATER_THAN) ? l : which == 2 || t == Type::LOWER_THAN ? u : e) = v;
        break;
      }
    }
  }
  g->execute();
  outputs(c, k, t, r);
  c.check(k->size() == m, "size", "size");
  c.check(same(columns(c, w, *k, m), J), "jacobian", [&] { return cat("Jacobian by columns\n", columns(c, w, *k, m), "\nexpected\n", J); });
  // no variable besides the declared ones, all of them in, linearly, sub-variables included
  for(auto & v : w.all)
  {
    bool inside = false;
    for(auto & q : d.x) inside = inside || q->contains(*v);
    bool has = k->variables().contains(*v);
    c.check(has == inside, "variables", [&] { return cat("variable ", v->name(), has ? " is" : " is not", " in the constraint"); });
    c.check(throws([&] { k->jacobian(*v); }) == !inside, "jacobian-access", [&] { return cat("Jacobian for ", v->name()); });
    if(inside)
    {
      c.check(same(MatrixXd(k->jacobian(*v)), J.middleCols(w.base(*v), v->size())), "jacobian-sub", [&] { return cat("Jacobian for ", v->name()); });
      c.check(falseProperty(k->jacobian(*v)).empty(), "jacobian-property", [&] { return cat("Jacobian for ", v->name(), " said ", falseProperty(k->jacobian(*v))); });
      c.check(k->linearIn(*v), "linear", "linearIn");
    }
  }
  c.check(same(k->l(), l) && same(k->u(), u) && same(k->e(), e), "rhs", [&] { return cat("l [", k->l().transpose(), "] u [", k->u().transpose(), "] e [", k->e().transpose(), "]"); });
  VectorXd X(World::N);
  X << w.x->value(), dot(w.x)->value(), dot(w.x, 2)->value(), w.y->value(), dot(w.y)->value(), dot(w.y, 2)->value();
  VectorXd val = J * X;
  c.check(same(k->value(), val), "value", [&] { return cat("value [", k->value().transpose(), "], expected [", val.transpose(), "]"); });
  Hash h;
  h.m(J).m(l).m(u).m(e).m(k->value());
  c.state(h);
}

// ---------------------------------------------------------------- linear functions
void functions(Ctx & c)
{
  World w;
  int m = c.flip() ? 2 : 1;
  int ctor = c.choose(3); // 0: no b, 1: b, 2: uninitialised
  int err = ctor == 2 ? 0 : c.choose(4);
  Decl d = declaration(c, w, m, err == 1);
  if(err == 2 && ctor != 1) c.prune();
  std::vector<MatrixConstRef> A;
  for(auto & a : d.A) A.push_back(a);
  auto x = d.x;
  if(err == 3)
  {
    if(c.flip())
      x.pop_back();
    else
      A.pop_back();
    if(A.empty() || x.empty()) c.prune();
  }
  VectorXd b = vec(err == 2 ? m + 1 : m, 1);
  bool ok = d.ok && err == 0;
  bool single = d.x.size() == 1 && err != 3 && c.flip();
  c.step([&] { return cat("function ", show(d), " ctor ", ctor, " error ", err); });
  std::shared_ptr<BasicLinearFunction> f;
  bool th = throws([&] {
    if(ctor == 0)
      f = single ? std::make_shared<BasicLinearFunction>(A[0], x[0]) : std::make_shared<BasicLinearFunction>(A, x);
    else if(ctor == 1)
      f = single ? std::make_shared<BasicLinearFunction>(A[0], x[0], b) : std::make_shared<BasicLinearFunction>(A, x, b);
    else
      f = single ? std::make_shared<BasicLinearFunction>(m, x[0]) : std::make_shared<BasicLinearFunction>(m, x);
  });
  if(ctor == 2 && !d.ok) return;
  bool repeated = !th && f->variables().numberOfVariables() != static_cast<int>(d.x.size());
  if(ctor == 2 && (repeated || th)) return;
  c.check(th == !ok, ok ? "accepted" : "refused", [&] { return ok ? "valid declaration refused" : "invalid declaration accepted"; });
  if(th) return;
  if(ctor != 1) b = VectorXd::Zero(m);
  if(ctor == 2)
  {
    for(size_t i = 0; i < d.x.size(); ++i) f->A(d.A[i], *d.x[i]);
    f->b(b = vec(m, 3));
  }
  MatrixXd J = d.cols(w, m);
  auto g = std::unique_ptr<tvm::graph::CallGraph>(new tvm::graph::CallGraph());
  auto in = std::make_shared<tvm::graph::internal::Inputs>();
  typedef function::abstract::Function Fu;
  in->addInput(f, Fu::Output::Value, Fu::Output::Velocity, Fu::Output::NormalAcceleration, Fu::Output::JDot);
  g->add(in);
  g->update();
  int depth = repeated ? 0 : c.choose(c.thorough ? 4 : 3);
  for(int s = 0; s < depth; ++s)
  {
    if(c.flip()) g->execute();
    switch(c.choose(3))
    {
      case 0:
        w.move(s + 1);
        c.step([&] { return cat("variables move to ", s + 1); });
        break;
      case 1:
      {
        size_t i = d.x.size() == 1 ? 0 : static_cast<size_t>(c.choose(static_cast<int>(d.x.size())));
        bool bad = c.flip();
        MatrixXd B = mat(m, d.x[i]->size() + bad, 3 + s);
        c.step([&] { return cat("A(", B.cols(), " columns, ", d.x[i]->name(), ")"); });
        c.check(throws([&] { f->A(B, *d.x[i]); }) == bad, "refused", "matrix of the wrong size accepted, or refused");
        if(!bad) d.A[i] = B;
        J = d.cols(w, m);
        break;
      }
      case 2:
      {
        int kind = c.choose(3);
        VectorXd v = vec(kind == 1 ? m + 1 : m, 6 + s);
        if(kind == 2) v.setZero();
        c.step([&] { return cat("b(size ", v.size(), ")"); });
        c.check(throws([&] { kind == 2 ? f->b(v, {MatrixProperties::ZERO}) : f->b(v); }) == (kind == 1), "refused", "vector of the wrong size accepted, or refused");
        if(kind != 1) b = v;
        break;
      }
    }
  }
  g->execute();
  c.check(same(columns(c, w, *f, m), J), "jacobian", [&] { return cat("Jacobian by columns\n", columns(c, w, *f, m), "\nexpected\n", J); });
  VectorXd X(World::N), dX = VectorXd::Zero(World::N);
  X << w.x->value(), dot(w.x)->value(), dot(w.x, 2)->value(), w.y->value(), dot(w.y)->value(), dot(w.y, 2)->value();
  dX << dot(w.x)->value(), dot(w.x, 2)->value(), dot(w.x, 3)->value(), dot(w.y)->value(), dot(w.y, 2)->value(), 0;
  VectorXd val = J * X + b, vel = J * dX;
  c.check(same(f->value(), val), "value", [&] { return cat("value [", f->value().transpose(), "], expected [", val.transpose(), "]"); });
  c.check(same(f->velocity(), vel), "velocity", [&] { return cat("velocity [", f->velocity().transpose(), "], expected [", vel.transpose(), "]"); });
  c.check(same(VectorXd(f->b()), b) && falseProperty(f->b()).empty(), "constant", [&] { return cat("b [", f->b().transpose(), "] ", falseProperty(f->b())); });
  c.check(same(f->normalAcceleration(), VectorXd::Zero(m)), "acceleration", "normal acceleration");
  for(const auto & v : f->variables().variables()) c.check(same(MatrixXd(f->JDot(*v)), MatrixXd::Zero(m, v->size())), "jdot", "JDot");
  Hash h;
  h.m(J).m(val);
  c.state(h);
}

// ---------------------------------------------------------------- linearised tasks
/** f(x,y) whose value, Jacobian, velocity and acceleration are set by the user and available through updates */
class Fn : public function::abstract::Function
{
public:
  SET_UPDATES(Fn, Value, Jacobian, Velocity, NormalAcceleration)
  VectorXd v, dv, na;
  std::vector<MatrixXd> J;
  Fn(int m, const std::vector<VariablePtr> & x, const std::vector<bool> & lin) : Function(m)
  {
    registerUpdates(Update::Value, &Fn::uv, Update::Jacobian, &Fn::uj, Update::Velocity, &Fn::ud, Update::NormalAcceleration, &Fn::un);
    addOutputDependency<Fn>(Output::Value, Update::Value);
    addOutputDependency<Fn>(Output::Jacobian, Update::Jacobian);
    addOutputDependency<Fn>(Output::Velocity, Update::Velocity);
    addOutputDependency<Fn>(Output::NormalAcceleration, Update::NormalAcceleration);
    for(size_t i = 0; i < x.size(); ++i)
    {
      addVariable(x[i], lin[i]);
      jacobian_[x[i].get()].setConstant(6e5);
    }
    value_.setConstant(4e5);
    velocity_.setConstant(3e5);
    normalAcceleration_.setConstant(2e5);
  }

private:
  void uv() { value_ = v; }
  void ud() { velocity_ = dv; }
  void un() { normalAcceleration_ = na; }
  void uj()
  {
    for(int i = 0; i < variables().numberOfVariables(); ++i) jacobian_[variables()[i].get()] = J[static_cast<size_t>(i)];
  }
};
typedef constraint::internal::LinearizedTaskConstraint LTC;
void tasks(Ctx & c)
{
  World w;
  int m = 1 + c.choose(2);
  std::vector<VariablePtr> x;
  switch(c.choose(4))
  {
    case 0: x = {w.x}; break;
    case 1: x = {w.y, w.x}; break;
    case 2: x = {w.xs}; break;
    case 3: x = {w.xt, w.y, w.xs}; break;
  }
  int dyn = c.choose(6); // None, P, PD, Constant, OneStepToZero 1 and 2
  int order = dyn == 0 || dyn == 3 ? 0 : dyn == 1 || dyn == 4 ? 1 : 2;
  std::vector<bool> lin(x.size(), true);
  bool linear = dyn == 0 || c.flip();
  if(!linear) lin.back() = false;
  Type t = types[c.choose(4)];
  FunctionPtr fp;
  std::shared_ptr<Fn> fn;
  std::shared_ptr<BasicLinearFunction> lf;
  std::vector<MatrixXd> A;
  for(size_t i = 0; i < x.size(); ++i) A.push_back(mat(m, x[i]->size(), static_cast<int>(i) + 1));
  VectorXd b = vec(m, 9);
  if(dyn == 0)
  {
    std::vector<MatrixConstRef> R(A.begin(), A.end());
    fp = lf = std::make_shared<BasicLinearFunction>(R, x, b);
  }
  else
    fp = fn = std::make_shared<Fn>(m, x, lin);
  VectorXd l = vec(m, 1), u = vec(m, 4) + VectorXd::Constant(m, 9);
  int form = c.choose(3); // no rhs, scalar rhs, vector rhs
  if(form == 0) l.setZero();
  if(form == 1) l.setConstant(-0.5), u.setConstant(1.5);
  std::shared_ptr<Task> task;
  std::shared_ptr<LTC> k;
  c.step([&] { return cat("task on ", x.size(), " variables, dynamics ", dyn, " type ", static_cast<int>(t), " form ", form, linear ? "" : ", not linear"); });
  auto make = [&](const task_dynamics::abstract::TaskDynamics & td) {
    if(t == Type::DOUBLE_SIDED)
    {
      if(form == 0)
        task = std::make_shared<Task>(fp, t, td);
      else if(form == 1)
        task = std::make_shared<Task>(fp, t, td, l[0], u[0]);
      else
        task = std::make_shared<Task>(fp, t, td, l, u);
    }
    else if(form == 0)
      task = std::make_shared<Task>(fp, t, td);
    else if(form == 1)
      task = std::make_shared<Task>(fp, t, td, l[0]);
    else
      task = std::make_shared<Task>(fp, t, td, l);
  };
  bool th = throws([&] {
    switch(dyn)
    {
      case 0: make(task_dynamics::None()); break;
      case 1: make(task_dynamics::P(2.)); break;
      case 2: make(task_dynamics::PD(3., 0.5)); break;
      case 3: make(task_dynamics::Constant()); break;
      case 4: make(task_dynamics::OneStepToZero(task_dynamics::Order::One, 0.5)); break;
      case 5: make(task_dynamics::OneStepToZero(task_dynamics::Order::Two, 0.5)); break;
    }
    k = std::make_shared<LTC>(*task);
  });
  bool bad = (t == Type::DOUBLE_SIDED && form == 0) || (order == 0 && !linear);
  c.check(th == bad, bad ? "refused" : "accepted", [&] { return bad ? "invalid task accepted" : "valid task refused"; });
  if(th) return;
  outputs(c, k, t, RHS::AS_GIVEN);
  // what is asked for: the relation may be used piecewise
  bool wantL = t == Type::GREATER_THAN || t == Type::DOUBLE_SIDED, wantU = t == Type::LOWER_THAN || t == Type::DOUBLE_SIDED, wantE = t == Type::EQUAL;
  int ask = c.choose(4);
  bool wantJ = ask != 1, wantV = ask == 2;
  if(t == Type::DOUBLE_SIDED && ask == 3) wantL = false;
  if(ask == 3 && t != Type::DOUBLE_SIDED) wantL = wantU = wantE = false;
  auto g = std::unique_ptr<tvm::graph::CallGraph>(new tvm::graph::CallGraph());
  auto in = std::make_shared<tvm::graph::internal::Inputs>();
  if(wantL) in->addInput(k, Cst::Output::L);
  if(wantU) in->addInput(k, Cst::Output::U);
  if(wantE) in->addInput(k, Cst::Output::E);
  if(wantJ) in->addInput(k, Cst::Output::Jacobian);
  if(wantV) in->addInput(k, Cst::Output::Value);
  g->add(in);
  g->update();
  int depth = 1 + c.choose(2);
  for(int s = 0; s < depth; ++s)
  {
    int kk = 1 + s;
    w.move(kk);
    for(size_t i = 0; i < x.size(); ++i) A[i] = mat(m, x[i]->size(), static_cast<int>(i) + kk);
    if(lf)
    {
      for(size_t i = 0; i < x.size(); ++i) lf->A(A[i], *x[i]);
      lf->b(b = vec(m, 9 + kk));
    }
    else
    {
      fn->v = vec(m, kk);
      fn->dv = vec(m, kk + 2);
      fn->na = vec(m, kk + 3);
      fn->J = A;
    }
    g->execute();
  }
  auto rhs = [&](const VectorXd & target) {
    VectorXd r(m);
    for(int i = 0; i < m; ++i)
    {
      double e = fn ? fn->v[i] - target[i] : 0, v = fn ? fn->dv[i] : 0, na = fn ? fn->na[i] : 0;
      switch(dyn)
      {
        case 0: r[i] = target[i] - b[i]; break;
        case 1: r[i] = -2 * e; break;
        case 2: r[i] = -3 * e - 0.5 * v - na; break;
        case 3: r[i] = target[i]; break;
        case 4: r[i] = -e / 0.5; break;
        case 5: r[i] = 2 / 0.5 * (-e / 0.5 - v) - na; break;
      }
    }
    return r;
  };
  const VectorXd & lo = l;
  const VectorXd & up = t == Type::DOUBLE_SIDED ? u : l;
  if(wantL) c.check(same(k->l(), rhs(lo)), "rhs", [&] { return cat("l [", k->l().transpose(), "] expected [", rhs(lo).transpose(), "]"); });
  if(wantU) c.check(same(k->u(), rhs(up)), "rhs", [&] { return cat("u [", k->u().transpose(), "] expected [", rhs(up).transpose(), "]"); });
  if(wantE) c.check(same(k->e(), rhs(lo)), "rhs", [&] { return cat("e [", k->e().transpose(), "] expected [", rhs(lo).transpose(), "]"); });
  c.check(k->size() == m && k->variables().numberOfVariables() == static_cast<int>(x.size()), "variables", "number of variables");
  MatrixXd J = MatrixXd::Zero(m, World::N);
  VectorXd val = VectorXd::Zero(m);
  for(size_t i = 0; i < x.size(); ++i)
  {
    VariablePtr v = order == 0 ? x[i] : dot(x[i], order);
    c.check(k->variables()[static_cast<int>(i)] == v, "variables", [&] { return cat("variable ", i, " is ", k->variables()[static_cast<int>(i)]->name()); });
    c.check(k->linearIn(*v), "linear", "linearIn");
    J.middleCols(w.base(*v), v->size()) += A[i];
    val += A[i] * v->value();
  }
  if(wantJ) c.check(same(columns(c, w, *k, m), J), "jacobian", [&] { return cat("Jacobian by columns\n", columns(c, w, *k, m), "\nexpected\n", J); });
  if(wantV) c.check(same(k->value(), val), "value", [&] { return cat("value [", k->value().transpose(), "], expected [", val.transpose(), "]"); });
  if(order > 0 && wantJ)
    for(size_t i = 0; i < x.size(); ++i)
    {
      VariablePtr sub = x[i]->subvariable(Space(1), "s", Space(x[i]->size() - 1));
      VariablePtr dsub = dot(sub, order);
      c.check(same(MatrixXd(k->jacobian(*dsub)), A[i].rightCols(1)), "jacobian-sub", "Jacobian for a sub-variable");
    }
  Hash h;
  h.m(J).m(rhs(lo)).i(static_cast<int>(t));
  c.state(h);
}
std::vector<Driver> drivers()
{
  return {
      {"matrices", "BasicLinearConstraint: 1-2 rows, 1-2 (thorough: 3) terms over 5 (sub-)variables with repetitions and overlaps, every type, convention, constructor and size error; every sequence of up to 2 (3; 1 (2) for several terms) setter calls (valid or not) and variable moves, with or without update in between", matrices, 5},
      {"functions", "BasicLinearFunction: likewise, with value, velocity and constant", functions, 5},
      {"tasks", "LinearizedTaskConstraint: 6 task dynamics x types x right-hand side forms x 4 variable lists, any subset of the outputs requested, 1-2 data changes", tasks, 4}};
}
} // namespace
int main(int argc, char ** argv)
{
  return run(argc, argv, "C14", drivers(), {"variables x (size 3), x[1:2], x[0:0], dx/dt, y (size 1)", "a term overlapping a former one without being contained in it is expected to be refused"});
}
