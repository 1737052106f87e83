// constants of every form added to, subtracted from leaves and pairs
#include "C16_expr.h"
namespace c16
{
template<class E>
void withVar()
{
  reg<Sub<K<0>, E>>();
  reg<Sub<K<1>, E>>();
  reg<Sub<K<2>, E>>();
}
template<class E>
void cst1()
{
  both<E, K<0>>();
  both<E, K<1>>();
  both<E, K<2>>();
  both<E, K<3>>();
  both<E, K<4>>();
  reg<Add<K<0>, E>>();
  reg<Add<K<1>, E>>();
  reg<Add<K<3>, E>>();
}
template<class E>
void cst2()
{
  both<E, K<0>>();
  both<E, K<1>>();
  reg<Add<K<2>, E>>();
}
template<class E>
void nested()
{
  reg<Neg<E>>();
  reg<Scal<E>>();
  reg<Mul<E>>();
  both<E, L<0>>();
  both<E, L<3>>();
  reg<Add<L<1>, E>>();
  reg<Add<L<6>, E>>();
  reg<Sub<L<6>, E>>();
  both<E, K<0>>();
  reg<Add<K<1>, E>>();
  reg<Sub<L<4>, E>>();
}
void part3()
{
  withVar<L<0>>();
  withVar<L<6>>();
  cst1<L<0>>();
  cst1<L<1>>();
  cst1<L<3>>();
  cst1<L<4>>();
  cst1<L<6>>();
  cst2<Add<L<0>, L<1>>>();
  cst2<Sub<L<3>, L<2>>>();
  cst2<Add<L<6>, L<3>>>();
  cst2<Neg<Add<L<3>, L<6>>>>();
  nested<Add<L<0>, K<0>>>();
  nested<Sub<L<3>, K<1>>>();
  nested<Add<K<3>, L<1>>>();
  nested<Sub<Add<L<6>, L<5>>, K<4>>>();
}
} // namespace c16
