// Witness unit of the link check: takes from the library everything a program
// can take.  Never executed.
#include "bignum/bignum.h"
#include "bignum/fourier.h"
#include <iostream>

void wit_link(bool c, const char* m) {
    bn_runtime_assert(c, BN_ERROR, m);
    BN_ASSERT(c);
    BN_WARN(c);
    BN_ALERT(c);
}
void wit_throw_nan() { throw BNNaN(); }
void wit_throw_underflow() { throw BNUnderflow(); }
const char* wit_what(const BNNaN& a) { return a.what(); }
const char* wit_what(const BNUnderflow& a) { return a.what(); }
template <class N> struct wit_all {
    static void use(N& a, const N& b, std::ostream& o) {
        typedef typename N::bn_single digit;
        o << b; a = b;
        N c{b}, d{static_cast<N&&>(c)}, e, f{BN_POS, {digit(1)}};
        a = static_cast<N&&>(d);
        a += b; a -= b; a *= b; a /= b;
        (void)(a + b); (void)(a - b); (void)(a * b); (void)(a / b);
        (void)(a == b); (void)(a != b); (void)(a < b); (void)(a <= b); (void)(a > b); (void)(a >= b);
        (void)a[0]; (void)b[0]; (void)a.getData(); (void)a.getDescriptor(); a.setDescriptor(BN_NEG);
        (void)a.isPositive(); (void)a.isNegative(); (void)a.isInfinite(); (void)a.isNan(); (void)N::isComputable(BN_NAN);
        a.resize(1); (void)a.size(); a.push_front(digit(0)); a.pop_front(); a.push_back(digit(0)); a.pop_back();
        a.push(digit(0), 0); a.pop(0); a.clear();
    }
};
template struct wit_all<bignum_lowp>;
template struct wit_all<bignum_medp>;
template struct wit_all<bignum_highp>;
template struct wit_all<bignum_base2>;
template struct wit_all<bignum_base8>;
template struct wit_all<bignum_base10>;
template struct wit_all<bignum_base16>;
