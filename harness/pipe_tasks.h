// Palette of tasks: each entry builds a task through the library's public API and states its mathematics.
#pragma once
#include "pipe.h"

#include <tvm/function/IdentityFunction.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>
#include <tvm/utils/AffineExpr.h>
#include <tvm/utils/ProtoTask.h>

namespace pipe_
{
using tvm::Task;
using tvm::VariablePtr;
using tvm::constraint::Type;
using tvm::function::BasicLinearFunction;
using P = tvm::internal::MatrixProperties;

inline Mat M(int r, int c, std::initializer_list<double> v)
{
  Mat m(r, c);
  auto it = v.begin();
  for(int i = 0; i < r; ++i)
    for(int j = 0; j < c; ++j) m(i, j) = *it++;
  return m;
}
inline Vec V(std::initializer_list<double> v)
{
  Vec x(static_cast<Eigen::Index>(v.size()));
  int i = 0;
  for(double d : v) x[i++] = d;
  return x;
}
constexpr double oo = 1e200;

/** Universe: x(2) y(2) z(1) at order 0, then dx(2) (with x0 = configuration of a separate variable q), ddq(2) */
struct Std : World
{
  VariablePtr x, y, z, q, dq, ddq, x0, y1;
  Std()
  {
    x = add("x", 2);
    y = add("y", 2);
    z = add("z", 1);
    q = tvm::Space(2).createVariable("q");
    q->value(V({0.5, -1.5}));
    dq = add(dot(q));
    rest[static_cast<size_t>(N) - 1] = rest[static_cast<size_t>(N) - 2] = 0.25;
    ddq = add(dot(q, 2));
    x0 = x->subvariable(1, "x0", tvm::Space(0));
    y1 = y->subvariable(1, "y1", tvm::Space(1));
    for(size_t i = 0; i < vars.size(); ++i) off[vars[i].get()] = start[i];
    off[x0.get()] = off[x.get()];
    off[y1.get()] = off[y.get()] + 1;
  }
  std::map<tvm::Variable *, int> off;

  Spec spec(Type t, const std::vector<std::pair<VariablePtr, Mat>> & blocks, Vec l, Vec u) const
  {
    Spec s;
    s.type = t;
    s.J = Mat::Zero(l.size(), N);
    s.uses.assign(static_cast<size_t>(N), false);
    for(auto & [v, A] : blocks)
    {
      int o = off.at(v.get());
      s.J.block(0, o, l.size(), v->size()) += A;
      for(int i = 0; i < v->size(); ++i) s.uses[static_cast<size_t>(o + i)] = true;
    }
    s.l = l;
    s.u = u;
    if(t == Type::EQUAL) s.u = l;
    if(t == Type::GREATER_THAN) s.u = Vec::Constant(l.size(), oo);
    if(t == Type::LOWER_THAN) s.l = Vec::Constant(l.size(), -oo);
    return s;
  }
};

struct Entry
{
  std::string name;
  /** priority 0 only (inequalities) or any */
  bool ineq;
  std::function<std::pair<Task, Spec>(Std &)> make;
};

inline const std::vector<Entry> & palette()
{
  using tvm::task_dynamics::None;
  static std::vector<Entry> e;
  if(!e.empty()) return e;
  auto I2 = Mat::Identity(2, 2).eval();
  auto lin = [](const std::vector<tvm::MatrixConstRef> & A, const std::vector<VariablePtr> & v, const Vec & b) {
    return std::make_shared<BasicLinearFunction>(A, v, b);
  };
  // --- constraints that can be bounds
  e.push_back({"x >= [-1;2] (identity function)", true, [=](Std & w) {
                 Task t(w.x >= V({-1, 2}), None());
                 return std::make_pair(t, w.spec(Type::GREATER_THAN, {{w.x, I2}}, V({-1, 2}), Vec()));
               }});
  e.push_back({"-x >= -4 (scalar rhs)", true, [=](Std & w) {
                 Task t(-w.x >= -4., None());
                 return std::make_pair(t, w.spec(Type::GREATER_THAN, {{w.x, -I2}}, V({-4, -4}), Vec()));
               }});
  e.push_back({"1 <= y <= [2;3]", true, [=](Std & w) {
                 Task t(1. <= w.y <= V({2, 3}), None());
                 return std::make_pair(t, w.spec(Type::DOUBLE_SIDED, {{w.y, I2}}, V({1, 1}), V({2, 3})));
               }});
  e.push_back({"diag(2,-4) x <= [4;8]", true, [=](Std & w) {
                 auto f = std::make_shared<BasicLinearFunction>(2, w.x);
                 f->A(M(2, 2, {2, 0, 0, -4}), *w.x, {P::DIAGONAL, P::Invertibility(true)});
                 f->b(V({0, 0}));
                 Task t(f, Type::LOWER_THAN, None(), V({4, 8}));
                 return std::make_pair(t, w.spec(Type::LOWER_THAN, {{w.x, M(2, 2, {2, 0, 0, -4})}}, V({4, 8}), V({4, 8})));
               }});
  e.push_back({"-5 <= -y <= [-1;-2]", true, [=](Std & w) {
                 Task t(-5. <= -w.y <= V({-1, -2}), None());
                 return std::make_pair(t, w.spec(Type::DOUBLE_SIDED, {{w.y, -I2}}, V({-5, -5}), V({-1, -2})));
               }});
  e.push_back({"[-3;-6] <= diag(-3,2) y + [0;1] <= [6;9]", true, [=](Std & w) {
                 auto f = std::make_shared<BasicLinearFunction>(2, w.y);
                 f->A(M(2, 2, {-3, 0, 0, 2}), *w.y, {P::DIAGONAL, P::Invertibility(true)});
                 f->b(V({0, 1}));
                 Task t(f, Type::DOUBLE_SIDED, None(), V({-3, -6}), V({6, 9}));
                 return std::make_pair(t, w.spec(Type::DOUBLE_SIDED, {{w.y, M(2, 2, {-3, 0, 0, 2})}}, V({-3, -7}), V({6, 8})));
               }});
  e.push_back({"3 z <= 6", true, [=](Std & w) {
                 Task t(3. * w.z <= 6., None());
                 return std::make_pair(t, w.spec(Type::LOWER_THAN, {{w.z, M(1, 1, {3})}}, V({6}), V({6})));
               }});
  e.push_back({"x0 <= 1.5 (subvariable)", true, [=](Std & w) {
                 Task t(w.x0 <= 1.5, None());
                 return std::make_pair(t, w.spec(Type::LOWER_THAN, {{w.x0, M(1, 1, {1})}}, V({1.5}), V({1.5})));
               }});
  e.push_back({"0 == 2 z - 1 (equality bound)", false, [=](Std & w) {
                 Vec one = V({-1});
                 Task t(0. == 2. * w.z + one, None());
                 return std::make_pair(t, w.spec(Type::EQUAL, {{w.z, M(1, 1, {2})}}, V({1}), Vec()));
               }});
  e.push_back({"y == [1.5;2] (equality bound)", false, [=](Std & w) {
                 Task t(w.y == V({1.5, 2}), None());
                 return std::make_pair(t, w.spec(Type::EQUAL, {{w.y, I2}}, V({1.5, 2}), Vec()));
               }});
  // --- general constraints
  e.push_back({"A x + B y == b", false, [=](Std & w) {
                 Mat A = M(2, 2, {1, 2, -1, 0}), B = M(2, 2, {0, 1, 3, 1});
                 Task t(lin({A, B}, {w.x, w.y}, V({0.5, 1})), Type::EQUAL, None(), V({1, 2}));
                 return std::make_pair(t, w.spec(Type::EQUAL, {{w.x, A}, {w.y, B}}, V({0.5, 1}), Vec()));
               }});
  e.push_back({"z + [1 -1] x == 0 (no rhs)", false, [=](Std & w) {
                 Mat A = M(1, 2, {1, -1}), B = M(1, 1, {1});
                 Task t(lin({B, A}, {w.z, w.x}, V({0})), Type::EQUAL, None());
                 return std::make_pair(t, w.spec(Type::EQUAL, {{w.x, A}, {w.z, B}}, V({0}), Vec()));
               }});
  e.push_back({"A x - z [1;1] <= 3", true, [=](Std & w) {
                 Mat A = M(2, 2, {1, 1, 2, -1}), B = M(2, 1, {-1, -1});
                 Task t(lin({A, B}, {w.x, w.z}, V({0, 0})), Type::LOWER_THAN, None(), 3.);
                 return std::make_pair(t, w.spec(Type::LOWER_THAN, {{w.x, A}, {w.z, B}}, V({3, 3}), V({3, 3})));
               }});
  e.push_back({"A y >= [-1;-2;-3]", true, [=](Std & w) {
                 Mat A = M(3, 2, {1, 2, 3, -1, 0, -2});
                 Task t(lin({A}, {w.y}, V({0, 1, 0})), Type::GREATER_THAN, None(), V({-1, -2, -3}));
                 return std::make_pair(t, w.spec(Type::GREATER_THAN, {{w.y, A}}, V({-1, -3, -3}), Vec()));
               }});
  e.push_back({"[-1;-2] <= A x + B y <= [4;5]", true, [=](Std & w) {
                 Mat A = M(2, 2, {1, 1, 0, 1}), B = M(2, 2, {1, 0, 2, -1});
                 Task t(lin({A, B}, {w.x, w.y}, V({0, 0})), Type::DOUBLE_SIDED, None(), V({-1, -2}), V({4, 5}));
                 return std::make_pair(t, w.spec(Type::DOUBLE_SIDED, {{w.x, A}, {w.y, B}}, V({-1, -2}), V({4, 5})));
               }});
  e.push_back({"-2 <= x0 + 2 z <= 7 (subvariable)", true, [=](Std & w) {
                 Task t(-2. <= w.x0 + 2. * w.z <= 7., None());
                 return std::make_pair(t, w.spec(Type::DOUBLE_SIDED, {{w.x0, M(1, 1, {1})}, {w.z, M(1, 1, {2})}}, V({-2}), V({7})));
               }});
  e.push_back({"y1 - 2 x0 == 1 (subvariables)", false, [=](Std & w) {
                 Task t(w.y1 - 2. * w.x0 == 1., None());
                 return std::make_pair(t, w.spec(Type::EQUAL, {{w.y1, M(1, 1, {1})}, {w.x0, M(1, 1, {-2})}}, V({1}), Vec()));
               }});
  e.push_back({"A x + [1;2] x0 >= 0 (overlapping)", true, [=](Std & w) {
                 Mat A = M(2, 2, {1, 2, 0, -1}), B = M(2, 1, {1, 2});
                 Task t(A * w.x + B * w.x0 >= 0., None());
                 return std::make_pair(t, w.spec(Type::GREATER_THAN, {{w.x, A}, {w.x0, B}}, V({0, 0}), Vec()));
               }});
  // --- typical objectives
  e.push_back({"x == [2;-1]", false, [=](Std & w) {
                 Task t(w.x == V({2, -1}), None());
                 return std::make_pair(t, w.spec(Type::EQUAL, {{w.x, I2}}, V({2, -1}), Vec()));
               }});
  e.push_back({"-z == 3", false, [=](Std & w) {
                 Task t(-w.z == 3., None());
                 return std::make_pair(t, w.spec(Type::EQUAL, {{w.z, M(1, 1, {-1})}}, V({3}), Vec()));
               }});
  e.push_back({"A y + B z == [1;0;2]", false, [=](Std & w) {
                 Mat A = M(3, 2, {1, 0, 0, 1, 1, 1}), B = M(3, 1, {1, 2, 0});
                 Task t(lin({A, B}, {w.y, w.z}, V({1, 1, 1})), Type::EQUAL, None(), V({2, 1, 3}));
                 return std::make_pair(t, w.spec(Type::EQUAL, {{w.y, A}, {w.z, B}}, V({1, 0, 2}), Vec()));
               }});
  // --- kinematic and dynamic tasks (unknowns dq, ddq)
  e.push_back({"A q == [1;1], proportional 2", false, [=](Std & w) {
                 Mat A = M(2, 2, {1, 1, 0, 2});
                 Vec f = A * V({0.5, -1.5}) + V({0, 1}), r = V({1, 1});
                 Task t(lin({A}, {w.q}, V({0, 1})), Type::EQUAL, tvm::task_dynamics::P(2.), r);
                 return std::make_pair(t, w.spec(Type::EQUAL, {{w.dq, A}}, -2 * (f - r), Vec()));
               }});
  e.push_back({"-3 <= q <= 4, proportional 0.5 (bound on dq)", true, [=](Std & w) {
                 Vec q0 = V({0.5, -1.5});
                 Task t(-3. <= w.q <= 4., tvm::task_dynamics::P(0.5));
                 return std::make_pair(t, w.spec(Type::DOUBLE_SIDED, {{w.dq, I2}}, -0.5 * (q0 - V({-3, -3})), -0.5 * (q0 - V({4, 4}))));
               }});
  e.push_back({"A q <= 1, PD(4,3) (on ddq)", true, [=](Std & w) {
                 Mat A = M(1, 2, {1, -2});
                 Vec dq0 = Vec::Constant(2, 0.25); // World::rest
                 Vec f = A * V({0.5, -1.5}), fd = A * dq0;
                 Vec r = -4 * (f - V({1})) - 3 * fd;
                 Task t(lin({A}, {w.q}, V({0})), Type::LOWER_THAN, tvm::task_dynamics::PD(4., 3.), V({1}));
                 return std::make_pair(t, w.spec(Type::LOWER_THAN, {{w.ddq, A}}, r, r));
               }});
  return e;
}
} // namespace pipe_
