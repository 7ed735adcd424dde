//@ bound: millimetre printing: every coordinate within +-2*10^9 micron; decimal printing: every value k/10^3 with |k| <= 10^6 (thorough 10^8) at 1 to 5 decimals
//@ assume: printf prints the correctly rounded decimal (C library contract)
//@ run: int2mm quick=60 thorough=600
//@ run: decimals quick=60 thorough=900
#include "hx.h"
#include "utils/string.h"
using namespace cura;
// reads a decimal number; returns it scaled by 10^dec (fails if it has more decimals than that)
struct Sink : std::streambuf { std::string s; int overflow(int c) override { s.push_back((char)c); return c; } std::streamsize xsputn(const char* p, std::streamsize n) override { for (std::streamsize i = 0; i < n; i++) s.push_back(p[i]); return n; } };
static bool readScaled(const std::string& s, int dec, int64_t& out, bool& shortest) {
    size_t i = 0; bool neg = false; if (i < s.size() && s[i] == '-') { neg = true; i++; } int64_t v = 0; int nd = 0, nf = -1; char last = 'x';
    for (; i < s.size(); i++) { char c = s[i]; if (nf < 0 && c == '.') { nf = 0; continue; } if (!sx_and(c >= '0', c <= '9')) return false; v = v * 10 + (c - '0'); nd++; last = c; if (nf >= 0) nf++; }
    shortest = sx_or(nf < 0, sx_or(v == 0, sx_and(nf > 0, last != '0'))); if (nf < 0) nf = 0; if (nf > dec || nd == 0) return false; for (; nf < dec; nf++) v *= 10; out = neg ? -v : v; return true; }
SX_HARNESS(int2mm, "micron printed as millimetres") {
    sx_digits(1); int64_t c = sx_int("coord", -2000000000, 2000000000); Sink k_; std::ostream ss(&k_); ss << MMtoStream{ c };
    int64_t v = 0; bool sh = false, ok = readScaled(k_.s, 3, v, sh); sx_assert(ok, "a coordinate is printed as a decimal number with at most three decimals");
    sx_assert(v == c, "the printed millimetres are exactly the micron coordinate"); sx_assert(sh, "no trailing zeros are printed"); sx_observe("v", v); sx_reach("end");
}
SX_HARNESS(decimals, "doubles printed with a limited number of decimals") {
    sx_digits(1); int prec = (int)sx_concrete(sx_int("prec", 1, 5)); int64_t k = sx_int("k", -HX_B(1000000, 100000000), HX_B(1000000, 100000000)); double d = double(k) / 1000.0;
    Sink k_; std::ostream ss(&k_); ss << PrecisionedDouble{ (uint8_t)prec, d }; int64_t v = 0; bool sh = false, ok = readScaled(k_.s, prec, v, sh); sx_assert(ok, "a double is printed as a decimal number with at most the requested decimals");
    int64_t p = 1; for (int i = 0; i < prec; i++) p *= 10; int64_t e = v * 1000 - k * p; // |v/p - k/1000| <= 1/2p
    sx_assert(2 * sx_abs(e) <= 1000, "the printed number is the value rounded to the requested decimals"); sx_assert(sh, "no trailing zeros are printed"); sx_reach("end");
}
