// every bracketing of three leaves (3 leaves, + and -)
#include "C16_expr.h"
namespace c16
{
template<class A, class B, class C>
void tri()
{
  both<Add<A, B>, C>();
  both<Sub<A, B>, C>();
  both<A, Add<B, C>>();
  both<A, Sub<B, C>>();
}
template<class A, class B>
void two()
{
  tri<A, B, L<0>>();
  tri<A, B, L<1>>();
  tri<A, B, L<3>>();
}
template<class A>
void one()
{
  two<A, L<0>>();
  two<A, L<1>>();
  two<A, L<3>>();
}
void part4()
{
  one<L<0>>();
  one<L<1>>();
  one<L<3>>();
}
} // namespace c16
