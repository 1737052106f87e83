// sums and differences of compound expressions
#include "C16_expr.h"
namespace c16
{
using P1 = Add<L<0>, L<3>>;
using P2 = Sub<Mul<L<6>>, K<1>>;
using P3 = Neg<Sub<L<2>, L<1>>>;
using P4 = Scal<Add<L<4>, K<0>>>;
using P5 = Mul<Add<Sub<L<3>, L<5>>, K<3>>>;
template<class A>
void row()
{
  both<A, P1>();
  both<A, P2>();
  both<A, P3>();
  both<A, P4>();
  both<A, P5>();
}
void part5()
{
  row<P1>();
  row<P2>();
  row<P3>();
  row<P4>();
  row<P5>();
  reg<Mul<Sub<P4, P5>>>();
  reg<Neg<Add<P2, P2>>>();
  reg<Add<Add<Add<Add<L<0>, L<1>>, Add<L<2>, L<3>>>, Add<L<4>, L<5>>>, Add<L<6>, L<7>>>>();
  reg<Sub<L<0>, Sub<L<1>, Sub<L<2>, Sub<L<3>, Sub<L<4>, Sub<L<5>, Sub<L<6>, L<7>>>>>>>>>();
}
} // namespace c16
