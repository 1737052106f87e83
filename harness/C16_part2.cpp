// unary operators (one or two) over every sum and difference of two leaves (5 leaves)
#include "C16_expr.h"
namespace c16
{
template<class P>
void un()
{
  reg<Neg<P>>();
  reg<Scal<P>>();
  reg<Mul<P>>();
}
template<class A, class B>
void pair()
{
  un<Add<A, B>>();
  un<Sub<A, B>>();
}
template<class A>
void row()
{
  pair<A, L<0>>();
  pair<A, L<1>>();
  pair<A, L<3>>();
  pair<A, L<4>>();
  pair<A, L<5>>();
}
void part2()
{
  row<L<0>>();
  row<L<1>>();
  row<L<3>>();
  row<L<4>>();
  row<L<5>>();
  reg<Neg<Scal<Add<L<0>, L<1>>>>>();
  reg<Mul<Neg<Sub<L<3>, L<6>>>>>();
  reg<Scal<Mul<Sub<L<2>, L<1>>>>>();
  reg<MulX<Mul<Add<L<4>, L<0>>>>>();
  reg<Neg<Neg<Sub<L<5>, L<7>>>>>();
}
} // namespace c16
