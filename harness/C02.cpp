//@ src: src/utils/linearAlg2D.cpp src/geometry/Point2LL.cpp
//@ bound: coordinates relative to a fixed offset within +-R; R per harness: closest/beyond 2000 (thorough 20000), segment distance: 9 listed segment vectors (thorough: every segment vector within 12), points within 60 (thorough 600), before/after report 2000 (thorough 20000) for ten listed segment vectors, line distance 60 (thorough 200), connection: 2 listed vectors for one segment, the other within 6 (thorough 100, both symbolic)
//@ assume: one end point is pinned to a non-zero constant (the functions only use differences of points; a constant offset still exposes code that does not)
//@ run: closest_on_segment quick=60 thorough=900
//@ run: beyond_line quick=40 thorough=300
//@ run: dist_segment quick=90 thorough=1200
//@ run: beyond_segment quick=40 thorough=300
//@ run: dist_line quick=60 thorough=900
//@ run: closest_connection tq=300 quick=90 thorough=900
//@ run: shorter_than quick=30 thorough=300
#include "hx.h"
#include "utils/linearAlg2D.h"
#include "geometry/Point2LL.h"
using namespace cura;
typedef Point2LL P;
static const P O(13, -7);
static P sym(const char* n, int64_t r) { int64_t x = sx_int((std::string(n) + ".x").c_str(), -r, r), y = sx_int((std::string(n) + ".y").c_str(), -r, r); return P(O.X + x, O.Y + y); }
// segment vectors used where a fully symbolic one is out of reach
static const int64_t VEC[][2] = {{0,0},{1,0},{0,-2},{3,4},{-5,2},{7,-7},{-1,9},{50,1},{100,-75},{-211,-30},{1000,7}};
static P vec(const char* n, int lo, int hi) { int64_t i = sx_concrete(sx_int(n, lo, hi)); return P(O.X + VEC[i][0], O.Y + VEC[i][1]); }
static void obs(const char* n, P p) { sx_observe((std::string(n) + ".x").c_str(), p.X); sx_observe((std::string(n) + ".y").c_str(), p.Y); }
static int64_t crs(P a, P b) { return a.X * b.Y - a.Y * b.X; }
static int64_t dt(P a, P b) { return a.X * b.X + a.Y * b.Y; }

SX_HARNESS(closest_on_segment, "closest point on a segment: on the segment, at the projection, clamped to the ends") {
    const int64_t R = HX_B(2000, 20000);
    P f = sym("from", R), p1 = sym("p1", R), p0 = O;
    P r = LinearAlg2D::getClosestOnLineSegment(f, p0, p1); obs("r", r);
    P d = p1 - p0; int64_t l2 = dt(d, d), pr = dt(f - p0, d), tol = sx_abs(d.X) + sx_abs(d.Y);
    sx_assert(sx_and(sx_and(r.X >= std::min(p0.X, p1.X), r.X <= std::max(p0.X, p1.X)), sx_and(r.Y >= std::min(p0.Y, p1.Y), r.Y <= std::max(p0.Y, p1.Y))), "closest point stays within the segment's extents");
    if (l2 == 0) { sx_assert(r == p0, "a zero-length segment yields its point"); sx_reach("degenerate"); return; }
    if (pr <= 0) { sx_assert(r == p0, "projection before the segment yields its start"); sx_reach("before"); return; }
    if (pr >= l2) { sx_assert(r == p1, "projection after the segment yields its end"); sx_reach("after"); return; }
    sx_reach("inside");
    sx_assert(sx_abs(crs(r - p0, d)) <= tol, "closest point lies on the line (within rounding)");
    sx_assert(sx_abs(dt(r - p0, d) - pr) <= tol, "closest point is the perpendicular projection (within rounding)");
}
SX_HARNESS(beyond_line, "before/within/after classification of a projection") {
    const int64_t R = HX_B(2000, 20000);
    P f = sym("from", R), b = sym("b", R), a = O; P d = b - a;
    short s = LinearAlg2D::pointIsProjectedBeyondLine(f, a, b); sx_observe("s", s);
    int64_t pr = dt(f - a, d), l2 = dt(d, d);
    sx_assert(s == (pr < 0 ? -1 : pr > l2 ? 1 : 0), "projection classification"); sx_reach("end");
}
SX_HARNESS(dist_segment, "squared distance to a segment agrees with the exact distance within rounding") {
    const int64_t R = HX_B(4, 12);
    P b = sym("b", HX_B(60, 600)), c, a = O; if (HX_T) { P c0 = sym("c", R); c = P(sx_concrete(c0.X), sx_concrete(c0.Y)); } else c = vec("c", 0, 8); P ac = c - a, ab = b - a; int64_t l2 = dt(ac, ac), pr = dt(ab, ac);
    int16_t beyond = 7; int64_t d2 = LinearAlg2D::getDist2FromLineSegment(a, b, c, &beyond); sx_observe("d2", d2); sx_observe("beyond", beyond);
    if (l2 == 0) { sx_assert(d2 == dt(ab, ab), "distance to a zero-length segment is the distance to its point"); sx_reach("degenerate"); return; }
    int64_t s = std::llrint(std::sqrt(double(d2))); // rounded reported distance
    if (pr < 0) { int64_t m = std::llrint(std::sqrt(double(dt(ab, ab)))); sx_assert(sx_abs(s - m) <= 2, "distance of a point before the segment is the distance to its start"); sx_assert(beyond != 1, "a point before the segment is not reported after it"); sx_reach("before"); return; }
    if (pr > l2) { int64_t m = std::llrint(std::sqrt(double(dt(b - c, b - c)))); sx_assert(sx_abs(s - m) <= 3, "distance of a point after the segment is the distance to its end"); sx_assert(beyond != -1, "a point after the segment is not reported before it"); sx_reach("after"); return; }
    int64_t cr = crs(ab, ac); // |cr| / sqrt(l2) is the exact distance
    int64_t lo = s > 3 ? s - 3 : 0, hi = s + 3;
    sx_assert(sx_and(lo * lo * l2 <= cr * cr, cr * cr <= hi * hi * l2), "distance to the inside of a segment is the perpendicular distance within 3 micron");
    sx_reach("inside");
}
SX_HARNESS(beyond_segment, "before/within/after report of the segment distance, and the distance beyond an end") {
    P b = sym("b", HX_B(2000, 20000)), c = vec("c", 1, 10), a = O, ac = c - a, ab = b - a; int64_t l2 = dt(ac, ac), pr = dt(ab, ac), l = std::llrint(std::sqrt(double(l2)));
    int16_t beyond = 7; int64_t d2 = LinearAlg2D::getDist2FromLineSegment(a, b, c, &beyond); sx_observe("beyond", beyond); (void)d2;
    sx_assert(sx_imp(pr < -2 * l - 2, beyond == -1), "a point clearly before the segment is reported before it"); sx_assert(sx_imp(pr > l2 + 2 * l + 2, beyond == 1), "a point clearly after the segment is reported after it");
    sx_assert(sx_imp(sx_and(pr > 2 * l + 2, pr < l2 - 2 * l - 2), beyond == 0), "a point clearly beside the segment is reported beside it");
    if (beyond == -1) sx_assert(d2 == dt(ab, ab), "before the segment the distance is that to its start"); if (beyond == 1) sx_assert(d2 == dt(b - c, b - c), "after the segment the distance is that to its end"); sx_reach("end");
}
SX_HARNESS(dist_line, "distance to a line") {
    const int64_t R = HX_B(60, 200);
    P p = sym("p", R), b = sym("b", R), a = O; P ab = b - a, ap = p - a;
    int64_t d = LinearAlg2D::getDistFromLine(p, a, b), d2 = LinearAlg2D::getDist2FromLine(p, a, b); sx_observe("d", d); sx_observe("d2", d2);
    sx_assert(d2 == d * d, "squared line distance is the square of the line distance");
    int64_t l2 = dt(ab, ab);
    if (l2 == 0) { sx_assert(d == vSize(ap), "distance to a zero-length line is the distance to its point"); sx_reach("degenerate"); return; }
    int64_t l = std::llrint(std::sqrt(double(l2))), area = sx_abs(crs(ab, ap));
    sx_assert(sx_and(d * l <= area, area < (d + 1) * l), "line distance is the parallelogram area over the base length"); sx_reach("end");
}
SX_HARNESS(closest_connection, "closest connection between two segments: one end is an end point, the other its projection, and no end point is closer") {
    const int64_t R = HX_B(6, 100);
    P a2 = HX_T ? sym("a2", R) : vec("a2", 3, 4), b1 = sym("b1", R), b2 = sym("b2", R), a1 = O;
    auto [x, y] = LinearAlg2D::getClosestConnection(a1, a2, b1, b2); obs("x", x); obs("y", y);
    P q[4] = { LinearAlg2D::getClosestOnLineSegment(b1, a1, a2), LinearAlg2D::getClosestOnLineSegment(b2, a1, a2), LinearAlg2D::getClosestOnLineSegment(a1, b1, b2), LinearAlg2D::getClosestOnLineSegment(a2, b1, b2) };
    int64_t d[4] = { vSize2(q[0] - b1), vSize2(q[1] - b2), vSize2(q[2] - a1), vSize2(q[3] - a2) }, l = vSize2(x - y);
    sx_assert(sx_and(sx_and(l <= d[0], l <= d[1]), sx_and(l <= d[2], l <= d[3])), "no end point is closer to the other segment than the reported connection");
    sx_assert(sx_or(sx_or(sx_and(x == q[0], y == b1), sx_and(x == q[1], y == b2)), sx_or(sx_and(x == a1, y == q[2]), sx_and(x == a2, y == q[3]))), "the connection joins a point of the first segment to one of the second");
    sx_reach("end");
}
SX_HARNESS(shorter_than, "length comparison without square roots") {
    int64_t x = sx_int("x", -3000000, 3000000), y = sx_int("y", -3000000, 3000000), l = sx_int("l", 0, 3000000);
    bool s = shorterThen(P(x, y), l); sx_observe("s", s);
    sx_assert(s == (x * x + y * y <= l * l), "a vector is reported not longer than a length exactly when it is"); sx_reach("end");
}
