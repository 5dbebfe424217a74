// Witness unit of the digit wrappers: for every operator a pair of functions,
// got_* uses the wrapper and ref_* the built-in operator.  Never executed.
#include "bignum/bignum.h"
#include <iostream>
#include <utility>

template <class T, class N> struct W {
#define PAIR(name, got, ref) \
    __attribute__((noinline)) static void got_##name(N x, N y, N* o) { got } \
    __attribute__((noinline)) static void ref_##name(N x, N y, N* o) { ref }
#define BIN(name, op) \
    PAIR(name##__wrapper_wrapper, T a{x}; T b{y}; o[2] = (N)(a op b); o[0] = a.num; o[1] = b.num; , o[2] = (N)(x op y); o[0] = x; o[1] = y;) \
    PAIR(name##__wrapper_integer, T a{x}; o[2] = (N)(a op y); o[0] = a.num; o[1] = y; , o[2] = (N)(x op y); o[0] = x; o[1] = y;) \
    PAIR(name##__integer_wrapper, T b{y}; o[2] = (N)(x op b); o[0] = x; o[1] = b.num; , o[2] = (N)(x op y); o[0] = x; o[1] = y;) \
    PAIR(name##__same_object, T a{x}; o[2] = (N)(a op a); o[0] = a.num; (void)y; , o[2] = (N)(x op x); o[0] = x; (void)y;)
#define ASG(name, op) \
    PAIR(name##__wrapper_wrapper, T a{x}; T b{y}; auto& r = (a op b); o[3] = (void*)&r == (void*)&a; o[2] = (N)r; o[0] = a.num; o[1] = b.num; , x op y; o[3] = 1; o[2] = x; o[0] = x; o[1] = y;) \
    PAIR(name##__wrapper_integer, T a{x}; auto& r = (a op y); o[3] = (void*)&r == (void*)&a; o[2] = (N)r; o[0] = a.num; o[1] = y; , x op y; o[3] = 1; o[2] = x; o[0] = x; o[1] = y;) \
    PAIR(name##__integer_wrapper, T b{y}; auto& r = (x op b); o[3] = (void*)&r == (void*)&x; o[2] = (N)r; o[0] = x; o[1] = b.num; , x op y; o[3] = 1; o[2] = x; o[0] = x; o[1] = y;) \
    PAIR(name##__same_object, T a{x}; auto& r = (a op a); o[3] = (void*)&r == (void*)&a; o[2] = (N)r; o[0] = a.num; (void)y; , N z = x; x op z; o[3] = 1; o[2] = x; o[0] = x; (void)y;) \
    PAIR(name##__own_member, T a{x}; auto& r = (a op a.num); o[3] = (void*)&r == (void*)&a; o[2] = (N)r; o[0] = a.num; (void)y; , N z = x; x op z; o[3] = 1; o[2] = x; o[0] = x; (void)y;)
    BIN(plus, +) BIN(minus, -) BIN(times, *) BIN(divide, /) BIN(modulo, %) BIN(and, &) BIN(or, |) BIN(xor, ^) BIN(shift_right, >>) BIN(shift_left, <<)
    BIN(equal, ==) BIN(not_equal, !=) BIN(greater, >) BIN(greater_equal, >=) BIN(less, <) BIN(less_equal, <=)
    ASG(plus_assign, +=) ASG(minus_assign, -=) ASG(times_assign, *=) ASG(divide_assign, /=) ASG(modulo_assign, %=) ASG(and_assign, &=) ASG(or_assign, |=) ASG(xor_assign, ^=) ASG(shift_right_assign, >>=) ASG(shift_left_assign, <<=)
    PAIR(pre_increment, T a{x}; auto& r = ++a; o[3] = (void*)&r == (void*)&a; o[2] = (N)r; o[0] = a.num; (void)y; , ++x; o[3] = 1; o[2] = x; o[0] = x; (void)y;)
    PAIR(pre_decrement, T a{x}; auto& r = --a; o[3] = (void*)&r == (void*)&a; o[2] = (N)r; o[0] = a.num; (void)y; , --x; o[3] = 1; o[2] = x; o[0] = x; (void)y;)
    PAIR(post_increment, T a{x}; T r = a++; o[2] = (N)r; o[0] = a.num; (void)y; , N r = x++; o[2] = r; o[0] = x; (void)y;)
    PAIR(post_decrement, T a{x}; T r = a--; o[2] = (N)r; o[0] = a.num; (void)y; , N r = x--; o[2] = r; o[0] = x; (void)y;)
    PAIR(logical_not, T a{x}; o[2] = (N)(!a); o[0] = a.num; (void)y; , o[2] = (N)(!x); o[0] = x; (void)y;)
    PAIR(unary_plus, T a{x}; o[2] = (N)(+a); o[0] = a.num; (void)y; , o[2] = (N)(+x); o[0] = x; (void)y;)
    PAIR(unary_minus, T a{x}; o[2] = (N)(-a); o[0] = a.num; (void)y; , o[2] = (N)(-x); o[0] = x; (void)y;)
    PAIR(complement, T a{x}; o[2] = (N)(~a); o[0] = a.num; (void)y; , o[2] = (N)(~x); o[0] = x; (void)y;)
    PAIR(default_constructor, T a{}; o[0] = a.num; (void)x; (void)y; , o[0] = 0; (void)x; (void)y;)
    PAIR(copy_constructor, T a{x}; T c{a}; o[0] = a.num; o[2] = c.num; (void)y; , o[0] = x; o[2] = x; (void)y;)
    PAIR(move_constructor, T a{x}; T c{std::move(a)}; o[2] = c.num; (void)y; , o[2] = x; (void)y;)
    PAIR(from_integer, const N z = x; T c{z}; T d(std::move(x)); o[1] = c.num; o[2] = d.num; (void)y; , o[1] = x; o[2] = x; (void)y;)
    PAIR(copy_assignment, T a{x}; T b{y}; auto& r = (a = b); o[3] = (void*)&r == (void*)&a; o[0] = a.num; o[1] = b.num; , o[3] = 1; o[0] = y; o[1] = y; (void)x;)
    PAIR(move_assignment, T a{x}; T b{y}; auto& r = (a = std::move(b)); o[3] = (void*)&r == (void*)&a; o[0] = a.num; , o[3] = 1; o[0] = y; (void)x;)
    PAIR(copy_self_assignment, T a{x}; T& s = a; a = s; o[0] = a.num; (void)y; , o[0] = x; (void)y;)
    PAIR(assign_integer, T a{x}; const N z = y; auto& r = (a = z); o[3] = (void*)&r == (void*)&a; o[0] = a.num; a = x; o[1] = a.num; a = std::move(y); o[2] = a.num; , o[3] = 1; o[0] = y; o[1] = x; o[2] = y;)
    PAIR(conversion, const T a{x}; o[0] = a; o[1] = (N)a; o[2] = static_cast<N>(a); o[3] = a ? 1 : 0; (void)y; , o[0] = x; o[1] = x; o[2] = x; o[3] = x ? 1 : 0; (void)y;)
    __attribute__((noinline)) static std::ostream* got_stream_out(std::ostream& s, const N* p) { const T a{*p}; return &(s << a); }
    __attribute__((noinline)) static std::ostream* ref_stream_out(std::ostream& s, const N* p) { const N a{*p}; return &(s << a); }
    __attribute__((noinline)) static std::istream* got_stream_in(std::istream& s, N* p) { T a{*p}; std::istream* r = &(s >> a); *p = a.num; return r; }
    __attribute__((noinline)) static std::istream* ref_stream_in(std::istream& s, N* p) { N a{*p}; std::istream* r = &(s >> a); *p = a; return r; }
};
template struct W<bn_uint8, BN_UINT8>;
template struct W<bn_uint16, BN_UINT16>;
template struct W<bn_uint32, BN_UINT32>;
template struct W<bn_base2_single, BN_UINT8>;
template struct W<bn_base2_double, BN_UINT16>;
template struct W<bn_base8_single, BN_UINT16>;
template struct W<bn_base8_double, BN_UINT32>;
template struct W<bn_base10_single, BN_UINT32>;
template struct W<bn_base10_double, BN_UINT64>;
template struct W<bn_base16_single, BN_UINT32>;
template struct W<bn_base16_double, BN_UINT64>;
