// Witness unit of the radix limits: the published constants as the compiler
// evaluates them.  Never executed.
#include "bignum/bignum.h"
#include <limits>
#include <type_traits>

template <class T> struct raw { typedef T type; };
template <class N, BN_UINT64 I> struct raw<BNIntType<N, I>> { typedef N type; };

#define SYSTEM(name) \
    extern const unsigned long long lim_##name[10]; \
    const unsigned long long lim_##name[10] = { \
        (unsigned long long)name::SINGLE_BASE_MIN, (unsigned long long)name::SINGLE_BASE_MAX, (unsigned long long)name::DOUBLE_BASE_MIN, (unsigned long long)name::DOUBLE_BASE_MAX, \
        (unsigned long long)std::numeric_limits<typename raw<name::base_single>::type>::max(), std::is_unsigned<typename raw<name::base_single>::type>::value, \
        (unsigned long long)std::numeric_limits<typename raw<name::base_double>::type>::max(), std::is_unsigned<typename raw<name::base_double>::type>::value, \
        (unsigned long long)bn_min_limit<name::base_single>(), (unsigned long long)bn_max_limit<name::base_single>() };
SYSTEM(bn_limits_lowp) SYSTEM(bn_limits_medp) SYSTEM(bn_limits_highp) SYSTEM(bn_limits_base2) SYSTEM(bn_limits_base8) SYSTEM(bn_limits_base10) SYSTEM(bn_limits_base16)

#define TYPE(name) \
    extern const unsigned long long typ_##name[4]; \
    const unsigned long long typ_##name[4] = { (unsigned long long)bn_min_limit<name>(), (unsigned long long)bn_max_limit<name>(), \
        (unsigned long long)std::numeric_limits<typename raw<name>::type>::max(), std::is_unsigned<typename raw<name>::type>::value };
TYPE(BN_UINT8) TYPE(BN_UINT16) TYPE(BN_UINT32) TYPE(BN_UINT64)
TYPE(bn_base2_single) TYPE(bn_base2_double) TYPE(bn_base8_single) TYPE(bn_base8_double)
TYPE(bn_base10_single) TYPE(bn_base10_double) TYPE(bn_base16_single) TYPE(bn_base16_double)

// the digit type stored by each advertised number
#define NUMBER(name, limits) \
    extern const unsigned long long num_##name[3]; \
    const unsigned long long num_##name[3] = { std::is_same<name::container_type::value_type, limits::base_single>::value, \
        std::is_same<name::bn_single, limits::base_single>::value, std::is_same<name::bn_double, limits::base_double>::value };
NUMBER(bignum_lowp, bn_limits_lowp) NUMBER(bignum_medp, bn_limits_medp) NUMBER(bignum_highp, bn_limits_highp)
NUMBER(bignum_base2, bn_limits_base2) NUMBER(bignum_base8, bn_limits_base8) NUMBER(bignum_base10, bn_limits_base10) NUMBER(bignum_base16, bn_limits_base16)
