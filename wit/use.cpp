// Witness unit: uses every published operation of the library so that the
// compiler instantiates it. Nothing here is ever executed.
#include "bignum/bignum.h"
#include <cstddef>
#include <sstream>
#include <utility>

template <class L> struct wit {
    typedef typename L::base_single digit;
    typedef bn_default_container_t<digit> list;
    typedef Bignum<L, list> num;
    static void use(num& a, const num& b, const list& x, const list& y, std::ostream& o) {
        (void)mul_naive<L, list>(x, y);
        (void)mul_strassen<L, list>(x, y);
        o << b;
        a = b; a = std::move(const_cast<num&>(b));
        num c{b}, d{std::move(c)}, e;
        num f{BN_POS, {digit(0)}};
        a += b; a -= b; a *= b; a /= b;
        (void)(a + b); (void)(a - b); (void)(a * b); (void)(a / b);
        (void)(a == b); (void)(a != b); (void)(a < b); (void)(a <= b); (void)(a > b); (void)(a >= b);
        (void)a[0]; (void)b[0]; (void)a.getData(); (void)a.getDescriptor(); a.setDescriptor(BN_NEG);
        (void)a.isPositive(); (void)a.isNegative(); (void)a.isInfinite(); (void)a.isNan(); (void)num::isComputable(BN_NAN);
        a.resize(1); (void)a.size(); a.push_front(digit(0)); a.pop_front(); a.push_back(digit(0)); a.pop_back();
        a.push(digit(0), 0); a.pop(0); a.clear();
    }
};
template struct wit<bn_limits_lowp>;
template struct wit<bn_limits_medp>;
template struct wit<bn_limits_highp>;
template struct wit<bn_limits_base2>;
template struct wit<bn_limits_base8>;
template struct wit<bn_limits_base10>;
template struct wit<bn_limits_base16>;

// layout and enumerators of the number class, as the compiler sees them
typedef wit<bn_limits_base10>::num wit_num;
extern const int wit_desc[5];
const int wit_desc[5] = {(int)BN_POS, (int)BN_NEG, (int)BN_NAN, (int)BN_POS_INF, (int)BN_NEG_INF};
extern const int wit_layout[2];
const int wit_layout[2] = {(int)__builtin_offsetof(wit_num, descriptor), (int)__builtin_offsetof(wit_num, numData)};
extern const int wit_severity[3];
const int wit_severity[3] = {(int)BN_ALERT, (int)BN_WARNING, (int)BN_ERROR};
