// C16: affine expressions and relations denote the function and the constraint that was written.
#include "C16_expr.h"

#include <Eigen/LU>

#include <tvm/Task.h>
#include <tvm/constraint/internal/LinearizedTaskConstraint.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/graph/CallGraph.h>
#include <tvm/graph/internal/Inputs.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/utils/ProtoTask.h>

using namespace mc;
using namespace c16;
using constraint::Type;
using tvm::internal::MatrixProperties;

std::vector<Entry> & c16::registry()
{
  static std::vector<Entry> r;
  return r;
}

namespace
{
void move(int k)
{
  World & w = W();
  w.x->value(Vector3d(1 + k, 2, -1 + k));
  w.y->value(Vector2d(0.5, -k));
  w.z->value(VectorXd::Constant(1, 4 - k));
  w.dy->value(Vector2d(-3, 1 + k));
  dot(w.x)->value(Vector3d(0.25, k, -2));
  dot(w.z)->value(VectorXd::Constant(1, 6 + k));
  dot(w.dy)->value(Vector2d(k, 8));
}
/** the scalar unknowns of a variable (or of its derivative when order is 1) */
int pos(const Variable & v, int order)
{
  World & w = W();
  for(auto p : {std::make_pair(w.x, PX), std::make_pair(w.y, PY), std::make_pair(w.z, PZ), std::make_pair(w.dy, PDY)})
    for(int i = 0; i + v.size() <= p.first->size(); ++i)
    {
      auto s = p.first->subvariable(Space(v.size()), "", Space(i));
      if(order)
        s = dot(s);
      if(*s == v)
        return p.second + i;
    }
  return -1;
}
VectorXd unknowns(int order)
{
  World & w = W();
  VectorXd v(N);
  if(order)
    v << dot(w.x)->value(), dot(w.y)->value(), dot(w.z)->value(), dot(w.dy)->value();
  else
    v << w.x->value(), w.y->value(), w.z->value(), w.dy->value();
  return v;
}
template<typename F>
MatrixXd columns(Ctx & c, const F & f, int m, int order)
{
  MatrixXd J = MatrixXd::Zero(m, N);
  for(const auto & v : f.variables().variables())
  {
    int p = pos(*v, order);
    c.check(p >= 0, "variable", [&] { return cat("unexpected variable ", v->name()); });
    auto Jv = f.jacobian(*v);
    c.check(Jv.rows() == m && Jv.cols() == v->size(), "jacobian", "size of a Jacobian");
    const auto & P = Jv.properties();
    MatrixXd D = Jv, I = MatrixXd::Identity(m, v->size());
    bool sq = D.rows() == D.cols();
    MatrixXd off = D;
    if(sq) off.diagonal().setZero();
    bool truth = (!P.isZero() || D.isZero(0)) && (!P.isIdentity() || (sq && D == I)) && (!P.isMinusIdentity() || (sq && D == -I))
                 && (!P.isDiagonal() || (sq && off.isZero(0))) && (!P.isMultipleOfIdentity() || (sq && D == D(0, 0) * I))
                 && (!P.isInvertible() || (sq && std::abs(D.determinant()) > 0)) && (!P.isSymmetric() || (sq && D == D.transpose()))
                 && (!P.isTriangular() || !sq || off.triangularView<StrictlyLower>().toDenseMatrix().isZero(0) || off.triangularView<StrictlyUpper>().toDenseMatrix().isZero(0))
                 && (!P.isPositiveSemiDefinite() || D.isZero(0) || D(0, 0) >= 0) && (!P.isNegativeSemidefinite() || D(0, 0) <= 0);
    c.check(truth, "properties", [&] { return cat("properties of the Jacobian are not those of\n", D); });
    J.middleCols(p, v->size()) += D;
  }
  // no variable twice
  VectorXi count = VectorXi::Zero(N);
  for(const auto & v : f.variables().variables())
    count.segment(pos(*v, order), v->size()).array() += 1;
  c.check(count.maxCoeff() <= 1, "variable", "a variable appears twice in a function");
  return J;
}

void expressions(Ctx & c)
{
  const Entry & e = registry()[static_cast<size_t>(c.choose(static_cast<int>(registry().size())))];
  c.note(e.text);
  static std::map<std::string, int> dummy;
  move(0);
  Aff want = e.want;
  auto f = e.make();
  World & w = W();
  // the function owns its data
  World keep = w;
  w.A *= 2;
  w.B *= -1;
  w.C *= 3;
  w.M *= -2;
  w.b *= 5;
  w.b4 *= 7;
  w.u *= 2;
  w.f2 *= 2;
  auto g = std::unique_ptr<tvm::graph::CallGraph>(new tvm::graph::CallGraph());
  auto in = std::make_shared<tvm::graph::internal::Inputs>();
  typedef function::abstract::Function Fu;
  in->addInput(f, Fu::Output::Value, Fu::Output::Velocity, Fu::Output::NormalAcceleration, Fu::Output::JDot);
  g->add(in);
  g->update();
  c.check(f->size() == 2, "size", "size of the function");
  MatrixXd J = columns(c, *f, 2, 0);
  c.check(J.isApprox(want.J, 1e-12) || (J - want.J).norm() < 1e-12, "jacobian", [&] { return cat(e.text, " has Jacobian\n", J, "\ninstead of\n", want.J); });
  c.check((f->b() - want.c).norm() < 1e-9, "constant", [&] { return cat(e.text, " has constant ", f->b().transpose(), " instead of ", want.c.transpose()); });
  const auto & pb = f->b().properties();
  c.check(!pb.isZero() || want.c.isZero(0), "constant", "constant wrongly declared zero");
  for(int k = 0; k < 3; ++k)
  {
    move(k);
    g->execute();
    VectorXd v = want.J * unknowns(0) + want.c, dv = want.J * unknowns(1);
    c.check((f->value() - v).norm() < 1e-9, "value", [&] { return cat(e.text, " is ", f->value().transpose(), " instead of ", v.transpose()); });
    c.check((f->velocity() - dv).norm() < 1e-9, "velocity", [&] { return cat(e.text, " has velocity ", f->velocity().transpose(), " instead of ", dv.transpose()); });
    c.check(f->normalAcceleration().isZero(0), "normal acceleration", "not zero");
    for(const auto & x : f->variables().variables())
      c.check(f->JDot(*x).isZero(0), "JDot", "not zero");
  }
  for(const auto & x : f->variables().variables())
    c.check(f->linearIn(*x), "linear", "not linear");
  w.A = keep.A;
  w.B = keep.B;
  w.C = keep.C;
  w.M = keep.M;
  w.b = keep.b;
  w.b4 = keep.b4;
  w.u = keep.u;
  w.f2 = keep.f2;
}

/** a function that is not (declared) linear: f = (x0^2 + y0, x1 y1) */
class Quad : public function::abstract::Function
{
public:
  SET_UPDATES(Quad, Value, Velocity, Jacobian, NormalAcc)
  Quad() : function::abstract::Function(2)
  {
    addVariable(W().x, false);
    addVariable(W().y, false);
    registerUpdates(Update::Value, &Quad::uv, Update::Velocity, &Quad::ud, Update::Jacobian, &Quad::uj, Update::NormalAcc, &Quad::un);
    addOutputDependency<Quad>(Output::Value, Update::Value);
    addOutputDependency<Quad>(Output::Velocity, Update::Velocity);
    addOutputDependency<Quad>(Output::Jacobian, Update::Jacobian);
    addOutputDependency<Quad>(Output::NormalAcceleration, Update::NormalAcc);
  }
  static VectorXd val()
  {
    auto x = W().x->value(), y = W().y->value();
    return Vector2d(x[0] * x[0] + y[0], x[1] * y[1]);
  }
  static MatrixXd jac()
  {
    auto x = W().x->value(), y = W().y->value();
    MatrixXd J = MatrixXd::Zero(2, N);
    J(0, PX) = 2 * x[0];
    J(0, PY) = 1;
    J(1, PX + 1) = y[1];
    J(1, PY + 1) = x[1];
    return J;
  }

private:
  void uv() { value_ = val(); }
  void ud() { velocity_ = jac() * unknowns(1); }
  void uj()
  {
    MatrixXd J = jac();
    jacobian_.at(W().x.get()) = J.leftCols(3);
    jacobian_.at(W().y.get()) = J.middleCols(PY, 2);
  }
  void un() { normalAcceleration_.setZero(2); }
};

/** a right-hand side */
template<class F>
void withRhs(int kind, int side, F && go)
{
  // side 1: the bigger one
  double d = side ? 4.5 : -1.25;
  World & w = W();
  switch(kind)
  {
    case 0:
      return go(0., VectorXd::Zero(2), true);
    case 1:
      return go(d, VectorXd::Constant(2, d), true);
    case 2:
    {
      VectorXd v = w.b * (side ? 2 : 1);
      return go(v, v, true);
    }
    case 3:
      return go(w.A * w.u + w.f2 * side, VectorXd(w.A * w.u + w.f2 * side), true);
    case 4:
    {
      Vector2d v = w.f2 * (side + 1);
      return go(v, VectorXd(v), true);
    }
    default:
    {
      VectorXd v = w.b4;
      return go(v, v, false);
    }
  }
}
const char * forms[] = {"e == r", "r == e", "e >= r", "r >= e", "e <= r", "r <= e", "l <= e <= u", "u >= e >= l", "(e <= u) >= l", "(e >= l) <= u"};

template<class E>
void relation(Ctx & c, const E & e, const std::function<Aff()> & want, bool linear)
{
  int form = c.choose(10);
  bool dbl = form >= 6;
  int k1 = c.choose(6), k2 = dbl ? c.choose(6) : 0;
  bool P = !linear || c.flip(), direct = c.flip();
  c.note(cat(forms[form], " with right-hand side(s) ", k1, " ", k2, P ? " P" : " None", direct ? ", constraint made directly" : ""));
  std::shared_ptr<constraint::internal::LinearizedTaskConstraint> k;
  std::shared_ptr<Task> task;
  VectorXd lo, up;
  bool ok = true, refused = false;
  move(0);
  auto use = [&](const auto & proto) {
    task_dynamics::None none;
    task_dynamics::P p(2.);
    const task_dynamics::abstract::TaskDynamics & td = P ? static_cast<const task_dynamics::abstract::TaskDynamics &>(p) : none;
    task = std::make_shared<Task>(proto, td);
    k = std::make_shared<constraint::internal::LinearizedTaskConstraint>(*task);
  };
  Type type = form < 2 ? Type::EQUAL : (form == 2 || form == 5) ? Type::GREATER_THAN : (form == 3 || form == 4) ? Type::LOWER_THAN : Type::DOUBLE_SIDED;
  try
  {
    withRhs(k1, 0, [&](const auto & r, const VectorXd & v, bool good) {
      ok = ok && good;
      lo = v;
      if(!dbl)
        switch(form)
        {
          case 0: use(e == r); break;
          case 1: use(r == e); break;
          case 2: use(e >= r); break;
          case 3: use(r >= e); break;
          case 4: use(e <= r); break;
          case 5: use(r <= e); break;
        }
      else
        withRhs(k2, 1, [&](const auto & u, const VectorXd & v2, bool good2) {
          ok = ok && good2;
          up = v2;
          // the library asks for both bounds to have the same form only through the task
          switch(form)
          {
            case 6: use(r <= e <= u); break;
            case 7: use(u >= e >= r); break;
            case 8: use((e <= u) >= r); break;
            case 9: use((e >= r) <= u); break;
          }
        });
    });
  }
  catch(const std::exception &)
  {
    refused = true;
  }
  c.check(refused != ok, "refused", [&] { return ok ? "a valid relation was refused" : "a right-hand side of the wrong size was accepted"; });
  if(refused)
    return;
  c.check(task->type() == type && k->type() == type, "type", [&] { return cat("type of the task is not that of the relation"); });
  auto g = std::unique_ptr<tvm::graph::CallGraph>(new tvm::graph::CallGraph());
  auto in = std::make_shared<tvm::graph::internal::Inputs>();
  typedef constraint::abstract::Constraint Cst;
  if(type == Type::EQUAL)
    in->addInput(k, Cst::Output::E);
  else
  {
    if(type != Type::LOWER_THAN) in->addInput(k, Cst::Output::L);
    if(type != Type::GREATER_THAN) in->addInput(k, Cst::Output::U);
  }
  in->addInput(k, Cst::Output::Jacobian);
  in->addInput(task->function(), function::abstract::Function::Output::Value);
  g->add(in);
  g->update();
  for(int s = 0; s < 2; ++s)
  {
    move(s);
    g->execute();
    Aff a = want();
    VectorXd val = a.J * unknowns(0) + a.c;
    if(!linear)
      val = Quad::val();
    c.check((task->function()->value() - val).norm() < 1e-9, "function", [&] { return cat("function of the task is ", task->function()->value().transpose(), " instead of ", val.transpose()); });
    MatrixXd J = columns(c, *k, 2, P);
    c.check((J - a.J).norm() < 1e-9, "jacobian", [&] { return cat("Jacobian\n", J, "\ninstead of\n", a.J); });
    auto target = [&](const VectorXd & r) { return P ? VectorXd(2 * (r - val)) : VectorXd(r - a.c); };
    auto same = [&](const VectorXd & got, const VectorXd & r, const char * what) {
      VectorXd t = target(r);
      c.check((got - t).norm() < 1e-9, what, [&] { return cat(what, " is ", got.transpose(), " instead of ", t.transpose()); });
    };
    if(type == Type::EQUAL)
      same(k->e(), lo, "e");
    else if(type == Type::GREATER_THAN)
      same(k->l(), lo, "l");
    else if(type == Type::LOWER_THAN)
      same(k->u(), lo, "u");
    else
    {
      same(k->l(), lo, "l");
      same(k->u(), up, "u");
    }
  }
}

void relations(Ctx & c)
{
  World & w = W();
  int kind = c.choose(9);
  auto aff = [](const Aff & a) { return [a] { return a; }; };
  Aff Y = col(PY, Matrix2d::Identity()), AX = col(PX, w.A);
  switch(kind)
  {
    case 0:
      c.note("variable");
      return relation(c, w.y, aff(Y), true);
    case 1:
      c.note("part of a variable");
      return relation(c, w.xs, aff(L<6>::r()), true);
    case 2:
      c.note("A*x");
      return relation(c, w.A * w.x, aff(AX), true);
    case 3:
      c.note("-y");
      return relation(c, -w.y, aff(L<1>::r().J.isZero() ? Y : [&] { Aff a = Y; a.J *= -1; return a; }()), true);
    case 4:
    {
      c.note("A*x + b - y");
      Aff a = AX;
      a.J -= Y.J;
      a.c = w.b;
      return relation(c, w.A * w.x + w.b - w.y, aff(a), true);
    }
    case 5:
    {
      c.note("pointer to BasicLinearFunction");
      Aff a = AX;
      a.c = w.b;
      return relation(c, std::make_shared<function::BasicLinearFunction>(w.A, w.x, w.b), aff(a), true);
    }
    case 6:
    {
      c.note("pointer to LinearFunction");
      Aff a = AX;
      a.c = w.b;
      LinearFunctionPtr f = std::make_shared<function::BasicLinearFunction>(w.A, w.x, w.b);
      return relation(c, f, aff(a), true);
    }
    case 7:
    {
      c.note("pointer to Function");
      FunctionPtr f = std::make_shared<Quad>();
      return relation(c, f, [] { Aff a; a.J = Quad::jac(); return a; }, false);
    }
    case 8:
      c.note("pointer to a class of functions");
      return relation(c, std::make_shared<Quad>(), [] { Aff a; a.J = Quad::jac(); return a; }, false);
  }
}
} // namespace

int main(int argc, char ** argv)
{
  part1();
  part2();
  part3();
  part4();
  part5();
  return run(argc, argv, "C16",
             {{"expressions", cat(registry().size(), " expressions: every leaf (variable, part of a variable under two objects, derivative, product by a scalar, a matrix or an expression) under every unary operator, every sum and difference of two of 8 leaves, unary operators over pairs, constants of 5 forms, every bracketing of three leaves, compound operands; value, Jacobian, velocity at 3 points, data of the user changed in between"), expressions, 1},
              {"relations", "9 kinds of operands (variable, part, linear, affine, 4 kinds of function pointers) x 10 forms of comparison x 6 right-hand sides (zero, scalar, vectors, expression, wrong size), on each side, x task dynamics", relations, 2}},
             {"rows of size 2; expressions are used within the full expression or from operands that outlive them, as for Eigen"});
}
