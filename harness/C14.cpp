//@ src: src/BeadingStrategy/BeadingStrategy.cpp src/BeadingStrategy/BeadingStrategyFactory.cpp src/BeadingStrategy/DistributedBeadingStrategy.cpp src/BeadingStrategy/InnerWallInsetBeadingStrategy.cpp src/BeadingStrategy/LimitedBeadingStrategy.cpp src/BeadingStrategy/OuterWallInsetBeadingStrategy.cpp src/BeadingStrategy/RedistributeBeadingStrategy.cpp src/BeadingStrategy/WideningBeadingStrategy.cpp
//@ bound: every thickness from 0 to 4.5 mm for the number of lines and to 2.3-3 mm for their widths (thorough: to 8 mm) for listed line widths, thresholds, minimum widths, distribution radii and at most 2 to 8 lines; the chosen number of lines, one more and one less
//@ run: counts ideal=1 quick=60 thorough=600
//@ run: beads ideal=1 quick=120 thorough=900
//@ run: insets ideal=1 quick=60 thorough=600
#include "hx.h"
#include "BeadingStrategy/BeadingStrategyFactory.h"
#include <numeric>
using namespace cura;
struct Cfg { int64_t outer, inner; bool thin; int64_t minBead, minFeature; double split, add; int maxBeads, radius; double minVar; };
static const Cfg CFG[] = { { 400, 400, false, 0, 0, 0.5, 0.5, 4, 2, 0.5 }, { 350, 450, true, 300, 100, 0.9, 0.8, 6, 1, 0.5 }, { 450, 380, false, 0, 0, 0.3, 0.7, 8, 3, 0.6 }, { 400, 500, true, 340, 200, 0.6, 0.4, 2, 2, 0.5 }, { 300, 333, true, 250, 250, 0.85, 0.75, 100000, 4, 0.5 } };
static BeadingStrategyPtr make(const Cfg& c, int64_t off0 = 0, int64_t offx = 0) { return BeadingStrategyFactory::makeStrategy(c.outer, c.inner, 400, 0.5, c.thin, c.minBead, c.minFeature, Ratio{ c.split }, Ratio{ c.add }, c.maxBeads, off0, offx, c.radius, Ratio{ c.minVar }); }
static const int64_t TMAX = HX_B(4500, 8000);
SX_HARNESS(counts, "the number of lines for a thickness") {
    const Cfg& c = CFG[sx_concrete(sx_int("cfg", 0, 4))]; auto s = make(c); int64_t t = sx_int("t", 0, TMAX), u = sx_int("u", 0, TMAX); sx_assume(t <= u); int64_t n = s->getOptimalBeadCount(t), m = s->getOptimalBeadCount(u);
    sx_assert(n >= 0, "a number of lines"); sx_assert(n <= c.maxBeads + 1, "at most the allowed number of lines, plus the mark of the remaining area"); sx_assert(n <= m, "a thicker part has no fewer lines");
    for (int64_t k = 0; k <= c.maxBeads && k < 9; k++) { int64_t T = s->getTransitionThickness(k); sx_assert(sx_or(t >= T - 1, n <= k), "below the transition thickness there are at most that many lines"); sx_assert(sx_or(t <= T + 1, n > k), "above the transition thickness there are more lines"); double a = s->getTransitionAnchorPos(k); if (k < c.maxBeads && !(c.thin && k == 0)) sx_assert(a >= 0 && a <= 1, "the anchor of a transition lies within it"); sx_assert(s->getTransitioningLength(k) == (k == 0 ? 10 : 400), "transitions have the requested length"); if (k <= c.maxBeads) sx_assert(s->getOptimalThickness(k) == (k < 2 ? k * c.outer : 2 * c.outer + (k - 2) * c.inner), "the ideal thickness is two outer lines and inner lines"); }
    // the exact rule, for the allowed numbers of lines
    int64_t want; double minOuter = c.minVar * c.outer; if (c.thin && t < c.minFeature) want = 0; else if (t < minOuter) want = c.thin ? 1 : 0; else if (t <= 2 * c.outer) want = t > (1 + c.split) * c.outer ? 2 : 1; else { int64_t r = t - 2 * c.outer, k = r / c.inner, left = r - k * c.inner; double need = k % 2 ? c.split * c.inner : c.add * c.inner; int64_t needI = (int64_t)need; want = 2 + k + (left >= needI); }
    int64_t full = 2 * c.outer + (c.maxBeads - 1) * (c.maxBeads > 1 ? c.inner : 0); if (want > c.maxBeads) want = t >= full - 10 ? c.maxBeads + 1 : c.maxBeads; sx_assert(n == want, "as many lines as fit by the thresholds for odd and even numbers"); sx_reach("end");
}
SX_HARNESS(beads, "widths and positions of the lines") {
    int cfg = (int)sx_concrete(sx_int("cfg", 0, 4)); const Cfg& c = CFG[cfg]; auto s = make(c); int64_t t = sx_int("t", 0, HX_T ? TMAX : c.maxBeads > 6 ? 2400 : c.maxBeads > 4 ? 3000 : 2300); int64_t opt = sx_concrete(s->getOptimalBeadCount(t)), d = sx_concrete(sx_int("delta", -1, 1)), n = opt + d; if (!HX_T && d && cfg > 1 && cfg != 3) { sx_reach("none"); return; } if (n < 0 || n > c.maxBeads + 1) { sx_reach("none"); return; }
    BeadingStrategy::Beading b = s->compute(t, n); size_t k = b.bead_widths.size(); sx_assert(b.toolpath_locations.size() == k, "one position per line"); sx_assert(b.total_thickness == t, "the thickness is recorded"); size_t marks = 0; int64_t sum = 0; for (size_t i = 0; i < k; i++) { if (sx_concrete(b.bead_widths[i] == 0)) marks++; sum += b.bead_widths[i]; }
    bool thin = sx_and(c.thin, t < c.inner); if (thin) { if (t < c.minFeature) { sx_assert(k == 0 && b.left_over == t, "nothing is printed below the minimum feature size"); sx_reach("thin nothing"); return; } sx_assert(k == 1 + marks && b.bead_widths[0] == hx_max(t, c.minBead), "a thin part gets one line of at least the minimum width"); sx_assert(b.toolpath_locations[0] == t / 2, "the line of a thin part lies on its middle"); sx_reach("thin"); return; }
    sx_assert(sx_and(sum + b.left_over <= t, sum + b.left_over >= t - (int64_t)k), "the lines and what is left over make up the thickness"); if (n > 0 && n <= c.maxBeads && n == opt) { sx_assert(b.left_over <= (int64_t)k, "nothing is left over up to the allowed number of lines"); sx_assert(k - marks == (size_t)n, "as many lines as chosen"); }
    for (size_t i = 0; i < k; i++) { if (n <= opt) sx_assert(b.bead_widths[i] >= 0, "no line has a negative width"); size_t j = k - 1 - i; sx_assert(sx_abs(b.bead_widths[i] - b.bead_widths[j]) <= 1, "the widths are symmetric"); if (n > c.maxBeads || !(marks & 1)) sx_assert(sx_abs(b.toolpath_locations[i] + b.toolpath_locations[j] - t) <= (int64_t)k, "the positions are symmetric");
        sx_assert(sx_and(b.toolpath_locations[i] >= 0, b.toolpath_locations[i] <= t), "the lines lie within the part"); if (i && n <= opt) sx_assert(b.toolpath_locations[i] >= b.toolpath_locations[i - 1], "the lines are ordered from one side to the other");
        if (i && i < (k + 1) / 2 && n == opt) sx_assert(sx_abs(2 * (b.toolpath_locations[i] - b.toolpath_locations[i - 1]) - b.bead_widths[i] - b.bead_widths[i - 1]) <= 2 * (int64_t)k, "neighbouring lines touch"); }
    if (k > 0) sx_assert(sx_abs(2 * b.toolpath_locations[0] - b.bead_widths[0]) <= 1, "the outer line touches the outline");
    if (n == opt && n > 2) { sx_assert(b.bead_widths[0] == c.outer && b.bead_widths[k - 1] == c.outer, "the outer lines have their own width"); int64_t lo = 0; bool nar = true, mono = true; for (size_t i = 1; i + 1 < k; i++) if (b.bead_widths[i] != 0) { nar = sx_and(nar, b.bead_widths[i] >= (int64_t)(std::min(c.add, (1 + c.split) / 2) * c.inner) - 2); if (i < (k + 1) / 2 && b.bead_widths[i - 1] != 0 && i > 1) mono = sx_and(mono, sx_abs(b.bead_widths[i] - c.inner) >= sx_abs(b.bead_widths[i - 1] - c.inner) - 1); } (void)lo; sx_assert(nar, "no line is narrower than the thresholds allow"); sx_assert(mono, "lines nearer to the middle take more of the difference"); if (c.radius == 2 && n <= c.maxBeads) for (size_t i = 1; i + 1 < k; i++) if (b.bead_widths[i] != 0 && !(i >= k / 2 - 1 - (marks ? 1 : 0) && i <= k / 2 + (marks ? 1 : 0))) sx_assert(sx_abs(b.bead_widths[i] - c.inner) <= 1, "lines outside the middle keep their width"); }
    if (n > c.maxBeads) { sx_assert(marks >= 2, "two marks bound the area without lines"); size_t a = 0; while (b.bead_widths[a] != 0) a++; size_t z = k - 1; while (b.bead_widths[z] != 0) z--; sx_assert(a < z && sx_abs(b.toolpath_locations[a] - (b.toolpath_locations[a - 1] + b.bead_widths[a - 1] / 2)) <= 1 && sx_abs(b.toolpath_locations[z] - (b.toolpath_locations[z + 1] - b.bead_widths[z + 1] / 2)) <= 1, "the marks are the inner borders of the innermost lines"); sx_assert(b.left_over >= t - 2 * c.outer - (c.maxBeads - 2) * c.inner, "the rest of the thickness is left over"); }
    sx_reach("end");
}
SX_HARNESS(insets, "insets move the positions only") {
    Cfg c = CFG[sx_concrete(sx_int("cfg", 0, 4))]; c.maxBeads = 100000; int64_t o = sx_int("outer_offset", 0, 200), x = sx_int("inner_offset", -100, 100); auto s = make(c), r = make(c, o, x); int64_t t = sx_int("t", 0, HX_B(2600, TMAX)); int64_t n = sx_concrete(s->getOptimalBeadCount(t)); sx_assert(r->getOptimalBeadCount(t) == n, "insets do not change the number of lines"); auto a = s->compute(t, n), b = r->compute(t, n);
    sx_assert(a.bead_widths.size() == b.bead_widths.size() && a.toolpath_locations.size() == b.toolpath_locations.size() && b.left_over == a.left_over, "insets do not change the lines"); size_t k = a.bead_widths.size(); for (size_t i = 0; i < k; i++) { sx_assert(a.bead_widths[i] == b.bead_widths[i], "insets do not change widths"); int64_t want = a.toolpath_locations[i]; if (k > 1 && i == 0) { if (o > 0) want = hx_min(want + o, t / 2); } else if (k > 1) want += x; sx_assert(b.toolpath_locations[i] == want, "the outer line is moved inward, at most to the middle, and the inner ones by their offset"); }
    sx_assert(!r->toString().empty(), "the strategy can be described"); sx_reach("end");
}
