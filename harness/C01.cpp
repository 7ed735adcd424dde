//@ bound: dividends and divisors over the whole ranges stated in each harness (|dividend| <= 2^40, 1 <= |divisor| <= 2^21; unsigned to 2^41)
//@ assume: divisor is not zero; for the signed round-up the quotient of operands with mixed signs is only required to be within one of the real quotient from above
//@ run: round_signed quick=60 thorough=600
//@ run: floor_ceil_signed quick=60 thorough=600
//@ run: round_unsigned quick=60 thorough=600
//@ run: lerp quick=40 thorough=300
#include "hx.h"
#include "utils/math.h"
using namespace cura;
static const int64_t N = int64_t(1) << 40, D = int64_t(1) << 21;
SX_HARNESS(round_signed, "rounded signed division is the nearest integer, ties away from zero") {
    int64_t a = sx_int("a", -N, N), b = sx_int("b", -D, D); sx_assume(b != 0);
    int64_t q = round_divide_signed(a, b), r = a - q * b; sx_observe("q", q);
    sx_assert(2 * sx_abs(r) <= sx_abs(b), "the rounded quotient is a nearest integer");
    sx_reach("end");
}
SX_HARNESS(floor_ceil_signed, "floor and ceiling division") {
    int64_t a = sx_int("a", -N, N), b = sx_int("b", -D, D); sx_assume(b != 0);
    int64_t f = floor_divide_signed(a, b), c = ceil_divide_signed(a, b); sx_observe("f", f); sx_observe("c", c);
    int64_t rf = a - f * b; // 0 <= rf/b < 1
    sx_assert(sx_or(rf == 0, sx_and((rf > 0) == (b > 0), sx_abs(rf) < sx_abs(b))), "floor division is the largest integer not above the quotient");
    int64_t rc = c * b - a;
    sx_assert(sx_or(rc == 0, sx_and((rc > 0) == (b > 0), sx_abs(rc) < sx_abs(b))), "ceiling division is the smallest integer not below the quotient");
    sx_reach("end");
}
SX_HARNESS(round_unsigned, "unsigned rounding divisions") {
    uint64_t a = sx_int("a", 0, 2 * N), b = sx_int("b", 1, D);
    uint64_t q = round_divide(a, b), u = round_up_divide(a, b); sx_observe("q", q); sx_observe("u", u);
    sx_assert(2 * sx_abs(int64_t(a) - int64_t(q * b)) <= int64_t(b), "the rounded unsigned quotient is a nearest integer");
    sx_assert(sx_and(u * b >= a, u * b < a + b), "the rounded-up unsigned quotient is the smallest integer not below the quotient");
    sx_reach("end");
}
SX_HARNESS(lerp, "inverse linear interpolation") {
    int64_t lo = sx_int("lo", -1000000, 1000000), hi = sx_int("hi", -1000000, 1000000), v = sx_int("v", -1000000, 1000000);
    double t = inverse_lerp(lo, hi, v); sx_observe_d("t", t);
    if (lo == hi) { sx_assert(t == 0.0, "a degenerate range interpolates to zero"); sx_reach("degenerate"); return; }
    if (v == lo) sx_assert(t == 0.0, "the start of the range maps to 0");
    if (v == hi) sx_assert(t == 1.0, "the end of the range maps to 1");
    bool in = (lo <= v && v <= hi) || (hi <= v && v <= lo);
    sx_assert((t >= 0.0 && t <= 1.0) == in, "a value is mapped into [0,1] exactly when it lies in the range");
    sx_reach("end");
}
