// Forced include, used only when clang rejects a unit because "BNIntType op integer" is ambiguous: g++ (which builds the
// library) accepts it and picks the member taking numType, whose worst conversion is the better one. These overloads make
// the same choice.
#ifndef VERIF_SHIM_H
#define VERIF_SHIM_H
#include <type_traits>
#include "bignum/bn_int_type.h"
#define VERIF_COMMA ,
#define VERIF_OP(R, op) \
template <typename N, BN_UINT64 I, typename T, typename = typename std::enable_if<std::is_arithmetic<T>::value && !std::is_same<T, N>::value>::type> \
constexpr R operator op (const BNIntType<N, I>& a, T b) { return a.operator op(static_cast<const N&>(static_cast<N>(b))); }
VERIF_OP(bool, ==)
VERIF_OP(bool, !=)
VERIF_OP(bool, <)
VERIF_OP(bool, <=)
VERIF_OP(bool, >)
VERIF_OP(bool, >=)
VERIF_OP(BNIntType<N VERIF_COMMA I>, +)
VERIF_OP(BNIntType<N VERIF_COMMA I>, -)
VERIF_OP(BNIntType<N VERIF_COMMA I>, *)
VERIF_OP(BNIntType<N VERIF_COMMA I>, /)
VERIF_OP(BNIntType<N VERIF_COMMA I>, %)
VERIF_OP(BNIntType<N VERIF_COMMA I>, &)
VERIF_OP(BNIntType<N VERIF_COMMA I>, |)
VERIF_OP(BNIntType<N VERIF_COMMA I>, ^)
VERIF_OP(BNIntType<N VERIF_COMMA I>, <<)
VERIF_OP(BNIntType<N VERIF_COMMA I>, >>)
#endif
