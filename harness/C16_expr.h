#pragma once
// Expressions as compile-time trees: each node gives the library's expression and, independently, what it means.
#include "mc.h"

#include <tvm/Space.h>
#include <tvm/Variable.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/utils/AffineExpr.h>

#include <map>
#include <memory>

namespace c16
{
using namespace tvm;
using namespace Eigen;

/** scalar unknowns: x (3), y (2), z (1), dy (2) */
const int N = 8;
struct World
{
  VariablePtr x = Space(3).createVariable("x"), y = Space(2).createVariable("y"), z = Space(1).createVariable("z");
  VariablePtr xs = x->subvariable(Space(2), "xs", Space(1)), xt = x->subvariable(Space(2), "xt", Space(0)), dy = dot(y);
  VariablePtr xs2 = x->subvariable(Space(2), "xs2", Space(1)); // the same part of x, through another object
  MatrixXd A, B, C, M;
  VectorXd b, b4, u;
  Vector2d f2;
  World()
  {
    A.resize(2, 3);
    A << 1, -2, 3, 0.5, 4, -1;
    B.resize(2, 3);
    B << 2, 1, -1, 3, 0, 5;
    C.resize(2, 1);
    C << -1.5, 2;
    M.resize(2, 2);
    M << 1, 2, -3, 0.5;
    b = Vector2d(3, -1);
    b4 = Vector4d(1, 2, 7, -2);
    u = Vector3d(1, -1, 2);
    f2 << -4, 6;
  }
};
inline World & W()
{
  static World w;
  return w;
}

/** the meaning: J v + c */
struct Aff
{
  MatrixXd J = MatrixXd::Zero(2, N);
  VectorXd c = VectorXd::Zero(2);
};
inline Aff col(int p, const MatrixXd & A)
{
  Aff a;
  a.J.middleCols(p, A.cols()) = A;
  return a;
}
const int PX = 0, PY = 3, PZ = 5, PDY = 6;

// clang-format off
template<int I> struct L;
template<> struct L<0> { static const VariablePtr & e() { return W().y; } static Aff r() { return col(PY, Matrix2d::Identity()); } static std::string t() { return "y"; } };
template<> struct L<1> { static auto e() { return -W().xs; } static Aff r() { return col(PX + 1, -Matrix2d::Identity()); } static std::string t() { return "-x[1:2]"; } };
template<> struct L<2> { static auto e() { return 2. * W().xt; } static Aff r() { return col(PX, 2 * Matrix2d::Identity()); } static std::string t() { return "2*x[0:1]"; } };
template<> struct L<3> { static auto e() { return W().A * W().x; } static Aff r() { return col(PX, W().A); } static std::string t() { return "A*x"; } };
template<> struct L<4> { static auto e() { return (W().A - 2 * W().B) * W().x; } static Aff r() { MatrixXd D = W().A - 2 * W().B; return col(PX, D); } static std::string t() { return "(A-2B)*x"; } };
template<> struct L<5> { static auto e() { return W().C * W().z; } static Aff r() { return col(PZ, W().C); } static std::string t() { return "C*z"; } };
template<> struct L<6> { static const VariablePtr & e() { return W().xs2; } static Aff r() { return col(PX + 1, Matrix2d::Identity()); } static std::string t() { return "x[1:2]'"; } };
template<> struct L<7> { static auto e() { return W().M.transpose() * W().dy; } static Aff r() { return col(PDY, W().M.transpose()); } static std::string t() { return "M'*dy"; } };
inline Aff cst(const VectorXd & v) { Aff a; a.c = v; return a; }
template<int I> struct K;
template<> struct K<0> { static const VectorXd & e() { return W().b; } static Aff r() { return cst(W().b); } static std::string t() { return "b"; } };
template<> struct K<1> { static auto e() { return W().A * W().u; } static Aff r() { return cst(VectorXd(W().A * W().u)); } static std::string t() { return "A*u"; } };
template<> struct K<2> { static auto e() { return W().b4.segment<2>(1); } static Aff r() { return cst(VectorXd(W().b4.segment(1, 2))); } static std::string t() { return "b4[1:2]"; } };
template<> struct K<3> { static auto e() { return VectorXd::Ones(2); } static Aff r() { return cst(VectorXd::Ones(2)); } static std::string t() { return "1"; } };
template<> struct K<4> { static const Vector2d & e() { return W().f2; } static Aff r() { return cst(W().f2); } static std::string t() { return "f2"; } };

template<class E> struct Neg { static auto e() { return -E::e(); } static Aff r() { Aff a = E::r(); a.J *= -1; a.c *= -1; return a; } static std::string t() { return "-(" + E::t() + ")"; } };
template<class E> struct Scal { static auto e() { return 3. * E::e(); } static Aff r() { Aff a = E::r(); a.J *= 3; a.c *= 3; return a; } static std::string t() { return "3*(" + E::t() + ")"; } };
template<class E> struct Mul { static auto e() { return W().M * E::e(); } static Aff r() { Aff a = E::r(); a.J = MatrixXd(W().M * a.J); a.c = VectorXd(W().M * a.c); return a; } static std::string t() { return "M*(" + E::t() + ")"; } };
template<class E> struct MulX { static auto e() { return (W().M + W().M.transpose()) * E::e(); } static Aff r() { Aff a = E::r(); MatrixXd D = W().M + W().M.transpose(); a.J = MatrixXd(D * a.J); a.c = VectorXd(D * a.c); return a; } static std::string t() { return "(M+M')*(" + E::t() + ")"; } };
template<class E, class F> struct Add { static auto e() { return E::e() + F::e(); } static Aff r() { Aff a = E::r(), f = F::r(); a.J += f.J; a.c += f.c; return a; } static std::string t() { return "(" + E::t() + " + " + F::t() + ")"; } };
template<class E, class F> struct Sub { static auto e() { return E::e() - F::e(); } static Aff r() { Aff a = E::r(), f = F::r(); a.J -= f.J; a.c -= f.c; return a; } static std::string t() { return "(" + E::t() + " - " + F::t() + ")"; } };
// clang-format on

struct Entry
{
  std::string text;
  Aff want;
  std::shared_ptr<function::BasicLinearFunction> (*make)();
};
std::vector<Entry> & registry();

template<class E>
std::shared_ptr<function::BasicLinearFunction> make()
{
  using T = std::decay_t<decltype(E::e())>;
  if constexpr(std::is_same_v<T, VariablePtr>)
    return std::make_shared<function::BasicLinearFunction>(utils::LinearExpr<utils::internal::IdentityType>(E::e()));
  else
    return std::make_shared<function::BasicLinearFunction>(E::e());
}
template<class E>
void reg()
{ registry().push_back({E::t(), E::r(), &make<E>}); }
template<class E, class F>
void both()
{
  reg<Add<E, F>>();
  reg<Sub<E, F>>();
}
void part1();
void part2();
void part3();
void part4();
void part5();
} // namespace c16
