//@ inc: stubs
//@ src: src/timeEstimate.cpp
//@ bound: one, two or three moves along X, Y, Z, a diagonal, with extrusion, or extruder-only; lengths 0.01 to 200 mm symbolic; five listed speeds (below minimum, slow, medium, above the axis limit); three acceleration/jerk settings; three moves: listed speed combinations (quick: three, thorough: eight) with listed outer lengths, any middle length
//@ assume: arithmetic is idealised to exact reals (counterexamples are replayed on the real floating-point code), positions within 1e-7 of a case distinction are left out; the firmware model is the one the class documents: trapezoidal speed profile, entry speed limited by jerk, final speed 0.05 mm/s
//@ run: single quick=90 tl=4000 thorough=600 ideal=1
//@ run: pair quick=90 tl=2000 thorough=1500 ideal=1
//@ run: triple quick=70 thorough=1500 tl=2000 ideal=1
//@ run: accounting quick=40 tl=4000 thorough=200 ideal=1
#define APP_RESOLVER
#include <cura-formulae-engine/eval.h>
#include "app.h"
#include "timeEstimate.h"
#include "settings/Settings.h"
#include <cmath>
using namespace cura;
typedef TimeEstimateCalculator T;
struct Cfg { double vmax[4], amax[4], a, jxy, jz, je, vmin; };
static const Cfg CFG[3] = { { { 256, 200, 40, 32 }, { 8000, 6000, 100, 10000 }, 3200, 16, 0.5, 4, 0.25 }, { { 150, 150, 12, 25 }, { 500, 300, 100, 250 }, 500, 8, 0.5, 5, 2 }, { { 600, 600, 600, 600 }, { 1000, 1000, 1000, 1000 }, 1000, 600, 600, 600, 0.25 } };
static void apply(T& t, const Cfg& c) {
    Settings s; const char* ax[4] = { "x", "y", "z", "e" }; for (int i = 0; i < 4; i++) { s.add(std::string("machine_max_feedrate_") + ax[i], std::to_string(c.vmax[i])); s.add(std::string("machine_max_acceleration_") + ax[i], std::to_string(c.amax[i])); }
    s.add("machine_max_jerk_xy", std::to_string(c.jxy)); s.add("machine_max_jerk_z", std::to_string(c.jz)); s.add("machine_max_jerk_e", std::to_string(c.je)); s.add("machine_minimum_feedrate", std::to_string(c.vmin)); s.add("machine_acceleration", std::to_string(c.a)); t.setFirmwareDefaults(s); }
// direction of travel per unit of length (unit vector in XYZ, or E only)
static const double DIR[6][4] = { { 1, 0, 0, 0 }, { 0, -1, 0, 0 }, { 0, 0, 1, 0 }, { 0.6, 0.8, 0, 0 }, { -1, 0, 0, 0.05 }, { 0, 0, 0, 1 } };
static const double SPEED[5] = { 0.005, 5, 30, 120, 1000 };
static double dmin(double a, double b) { return a < b ? a : b; }
static double nominal(const Cfg& c, const double* dir, double f) { if (f < c.vmin) f = c.vmin; double r = 1; for (int n = 0; n < 4; n++) if (std::fabs(dir[n]) * f > c.vmax[n]) r = dmin(r, c.vmax[n] / (std::fabs(dir[n]) * f)); return f * r; }
static double accel(const Cfg& c, const double* dir) { double a = c.a; for (int n = 0; n < 4; n++) if (a * std::fabs(dir[n]) > c.amax[n]) a = c.amax[n]; return a; }
static double startSpeed(const Cfg& c, const double* dir, double v) { double s = c.jxy / 2; if (std::fabs(dir[2]) * v > c.jz / 2) s = dmin(s, c.jz / 2); if (std::fabs(dir[3]) * v > c.je / 2) s = dmin(s, c.je / 2); return dmin(s, v); }
// within a billionth of a case distinction the idealised arithmetic may take either side: left out
static void apart(double a, double b) { sx_assume(sx_or(a - b > 1e-7, b - a > 1e-7)); }
// time of one trapezoid; entered at vi, left at vf, squares given
static double trapezoid(double d, double v, double a, double vi, double vi2, double vf, double vf2) {
    double acc = (v * v - vi2) / (2 * a), dec = (v * v - vf2) / (2 * a);
    apart(acc + dec, d); if (acc + dec <= d) return (v - vi) / a + (v - vf) / a + (d - acc - dec) / v;
    double peak = std::sqrt((2 * a * d + vi2 + vf2) / 2); return (peak - vi) / a + (peak - vf) / a; }
static double total(const std::vector<Duration>& v) { double s = 0; for (auto& d : v) s += (double)d; return s; }
static bool close(double a, double b, double rel) { return sx_and(a - b <= 1e-4 + rel * b, b - a <= 1e-4 + rel * b); }
SX_HARNESS(single, "one move from rest: exact trapezoid time") {
    int ci = (int)sx_concrete(sx_int("cfg", 0, 2)), di = (int)sx_concrete(sx_int("dir", 0, 5)), fi = (int)sx_concrete(sx_int("speed", 0, 4)); const Cfg& c = CFG[ci]; const double* u = DIR[di];
    T t; apply(t, c); double d = sx_double("length", 0.01, 200); t.setPosition(T::Position(100, 100, 10, 50)); T::Position p(100 + u[0] * d, 100 + u[1] * d, 10 + u[2] * d, 50 + u[3] * d); t.plan(p, Velocity{ SPEED[fi] }, PrintFeatureType::Infill);
    auto r = t.calculate(); double got = (double)r[(size_t)PrintFeatureType::Infill]; sx_observe_d("t", got);
    double v = nominal(c, u, SPEED[fi]), a = accel(c, u);
    sx_assert(got >= d / v * 0.999 - 1e-4, "a move takes at least its length divided by its speed"); sx_assert(got <= d / v + (v > 0.05 ? v : 0.05) / a * 1.001 + 1e-4 + d * 1e-5, "a move takes at most the cruise time plus the time to speed up and slow down");
    double vs = startSpeed(c, u, v); sx_assume(d >= (0.05 * 0.05 + vs * vs) / (2 * a) + 1e-3); // long enough to slow down from the entry speed: the profile is a trapezoid or triangle
    if (v >= 0.05) sx_assert(close(got, trapezoid(d, v, a, vs, vs * vs, 0.05, 0.0025), 1e-4), "the time of a single move is that of the trapezoidal profile");
    sx_reach("end");
}
SX_HARNESS(pair, "two moves along a line: the junction speed is the highest reachable one within the jerk limit") {
    int ci = (int)sx_concrete(sx_int("cfg", 0, 2)), f1 = (int)sx_concrete(sx_int("s1", 1, HX_B(3, 4))), f2 = (int)sx_concrete(sx_int("s2", 1, HX_B(3, 4))), back = (int)sx_concrete(sx_int("reverse", 0, 1)); const Cfg& c = CFG[ci]; const double* u = DIR[0];
    double d1 = sx_double("d1", 0.05, 200), d2 = 0.125 * (double)(1 << (4 * sx_concrete(sx_int("d2", 0, HX_B(2, 3))))); T t; apply(t, c); t.setPosition(T::Position(0, 0, 0, 0)); t.plan(T::Position(d1, 0, 0, 0), Velocity{ SPEED[f1] }, PrintFeatureType::Skin); t.plan(T::Position(back ? d1 - d2 : d1 + d2, 0, 0, 0), Velocity{ SPEED[f2] }, PrintFeatureType::Infill);
    auto r = t.calculate(); double g1 = (double)r[(size_t)PrintFeatureType::Skin], g2 = (double)r[(size_t)PrintFeatureType::Infill]; sx_observe_d("t1", g1); sx_observe_d("t2", g2);
    double v1 = nominal(c, u, SPEED[f1]), v2 = nominal(c, u, SPEED[f2]), a = accel(c, u), vs = startSpeed(c, u, v1);
    sx_assert(sx_and(g1 >= d1 / v1 * 0.999 - 1e-4, g2 >= d2 / v2 * 0.999 - 1e-4), "each move takes at least its length divided by its speed");
    double j = back ? v1 + v2 : std::fabs(v2 - v1), vj = v2; if (j > c.jxy) vj = v2 * (c.jxy / j); vj = dmin(vj, v1);
    double rev2 = 2 * a * d2 + 0.0025, fwd2 = 2 * a * d1 + vs * vs, vj2 = vj * vj; apart(rev2, vj2); apart(fwd2, vj2); apart(fwd2, rev2); if (rev2 < vj2) vj2 = rev2; if (fwd2 < vj2) vj2 = fwd2; if (vj2 != vj * vj) vj = std::sqrt(vj2);
    sx_assume(d1 >= (vs * vs) / (2 * a) + 1e-3); double e1 = trapezoid(d1, v1, a, vs, vs * vs, vj, vj2), e2 = trapezoid(d2, v2, a, vj, vj2, 0.05, 0.0025);
    sx_assert(close(g1, e1, 1e-3), "the first move's time is that of the profile ending at the junction speed"); sx_assert(close(g2, e2, 1e-3), "the second move's time is that of the profile starting at the junction speed"); sx_reach("end");
}
SX_HARNESS(triple, "three moves in a row, the middle one of any length: speeds propagate backward and forward") {
    static const int SC[8][4] = { { 0, 2, 3, 1 }, { 0, 3, 2, 3 }, { 1, 3, 3, 2 }, { 1, 1, 3, 3 }, { 2, 3, 3, 3 }, { 0, 3, 3, 3 }, { 1, 2, 3, 2 }, { 2, 1, 3, 2 } }; static const double D1[4] = { 0.125, 2, 0.125, 40 }, D3[4] = { 0.125, 0.125, 4, 0.5 };
    const int* k = SC[sx_concrete(sx_int("scenario", 0, HX_B(2, 7)))]; int di = (int)sx_concrete(sx_int("lengths", 0, HX_B(1, 3))), turn = (int)sx_concrete(sx_int("turn", 0, 2)); const Cfg& c = CFG[k[0]]; T t; apply(t, c); const double* u = DIR[0]; double d[3] = { D1[di], sx_double("d2", 0.02, HX_B(60, 200)), D3[di] }, sg[3] = { 1, turn == 1 ? -1.0 : 1.0, turn == 2 ? -1.0 : 1.0 };
    t.setPosition(T::Position(0, 0, 0, 0)); double x = 0, v[3], vj[3]; static const PrintFeatureType F[3] = { PrintFeatureType::Skin, PrintFeatureType::Infill, PrintFeatureType::Support };
    for (int i = 0; i < 3; i++) { x += sg[i] * d[i]; t.plan(T::Position(x, 0, 0, 0), Velocity{ SPEED[k[i + 1]] }, F[i]); v[i] = nominal(c, u, SPEED[k[i + 1]]); }
    auto r = t.calculate(); double a = accel(c, u); vj[0] = startSpeed(c, u, v[0]); for (int i = 1; i < 3; i++) { double j = std::fabs(sg[i] * v[i] - sg[i - 1] * v[i - 1]); vj[i] = v[i]; if (j > c.jxy) vj[i] = v[i] * (c.jxy / j); vj[i] = dmin(vj[i], v[i - 1]); }
    double e2[4] = { vj[0] * vj[0], vj[1] * vj[1], vj[2] * vj[2], 0.0025 }; auto lim = [&](int i, double m) { apart(m, e2[i]); if (m < e2[i]) e2[i] = m; };
    lim(2, 2 * a * d[2] + e2[3]); lim(1, 2 * a * d[1] + e2[2]); lim(0, 2 * a * d[0] + e2[3]); /* the first move starts no faster than it could stop */ lim(1, 2 * a * d[0] + e2[0]); lim(2, 2 * a * d[1] + e2[1]);
    double e[4]; for (int i = 0; i < 4; i++) e[i] = std::sqrt(e2[i]); for (int i = 0; i < 3; i++) { double got = (double)r[(size_t)F[i]]; sx_assert(close(got, trapezoid(d[i], v[i], a, e[i], e2[i], e[i + 1], e2[i + 1]), 1e-3), "each move's time is that of its profile between the highest reachable junction speeds"); }
    sx_reach("end");
}
SX_HARNESS(accounting, "time goes to the feature that spends it") {
    T t; apply(t, CFG[0]); double d1 = sx_double("d1", 1, 100), d2 = sx_double("d2", 1, 100), extra = sx_double("extra", 0, 1000), extra2 = sx_double("extra2", 0, 1000); int n = (int)PrintFeatureType::NumPrintFeatureTypes, a = 1 + 3 * (int)sx_concrete(sx_int("f1", 0, (n - 2) / 3)), b = 1 + 4 * (int)sx_concrete(sx_int("f2", 0, (n - 2) / 4));
    t.addTime(extra); t.plan(T::Position(d1, 0, 0, 0), Velocity{ 50.0 }, (PrintFeatureType)a); t.plan(T::Position(d1, d2, 0, 0), Velocity{ 20.0 }, (PrintFeatureType)b); t.plan(T::Position(d1, d2, 0, 0), Velocity{ 20.0 }, (PrintFeatureType)b); t.addTime(extra2); auto r = t.calculate();
    sx_assert((int)r.size() == n, "there is a total for every feature"); double none = (double)r[0]; sx_assert(sx_and(none - extra - extra2 <= 1e-9, extra + extra2 - none <= 1e-9), "waiting time is accounted once, to no feature");
    for (int i = 1; i < n; i++) { double want = (i == a ? d1 / 50 : 0) + (i == b ? d2 / 20 : 0); sx_assert((double)r[i] >= want * 0.999 - 1e-9, "a feature is charged for its moves"); if (i != a && i != b) sx_assert((double)r[i] == 0, "a feature that does not occur takes no time"); else sx_assert((double)r[i] <= want + 0.1, "a feature is not charged for moves of others"); }
    t.reset(); auto z = t.calculate(); sx_assert(total(z) == 0, "a reset clears all planned time"); sx_reach("end");
}
