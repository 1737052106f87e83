// every leaf under every unary operator, every sum and difference of two leaves
#include "C16_expr.h"
namespace c16
{
template<int I, int... J>
void row(std::integer_sequence<int, J...>)
{
  reg<L<I>>();
  reg<Neg<L<I>>>();
  reg<Scal<L<I>>>();
  reg<Mul<L<I>>>();
  reg<MulX<L<I>>>();
  (both<L<I>, L<J>>(), ...);
}
template<int... I>
void all(std::integer_sequence<int, I...> s)
{ (row<I>(s), ...); }
void part1() { all(std::make_integer_sequence<int, 8>()); }
} // namespace c16
