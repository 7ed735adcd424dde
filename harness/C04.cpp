//@ src: src/utils/linearAlg2D.cpp src/geometry/Point2LL.cpp src/geometry/PointMatrix.cpp src/utils/AABB.cpp src/utils/AABB3D.cpp src/geometry/PointsSet.cpp src/geometry/Point3LL.cpp
//@ bound: 9 listed line directions (none, axis-aligned, steep, flat, diagonal); horizontal-line intersections: positions within 100000 (thorough 2*10^6); line-line: positions within 500 (thorough 4000)
//@ run: hor_line quick=60 thorough=900
//@ run: hor_segment quick=60 thorough=900
//@ run: line_line quick=60 thorough=900
#include "hx.h"
#include "utils/linearAlg2D.h"
using namespace cura;
typedef Point2LL P;
static P sym(const char* n, int64_t r) { int64_t x = sx_int((std::string(n) + ".x").c_str(), -r, r), y = sx_int((std::string(n) + ".y").c_str(), -r, r); return P(x, y); }
static int64_t crs(P a, P b) { return a.X * b.Y - a.Y * b.X; }
static void near(int64_t r, P a, P b, int64_t y) { // |r - x| <= 1 with x = a.X + (b.X-a.X)(y-a.Y)/(b.Y-a.Y)
    int64_t h = b.Y - a.Y, n = (b.X - a.X) * (y - a.Y), e = (r - a.X) * h - n;
    sx_assert(sx_abs(e) <= sx_abs(h), "the reported crossing lies on the line, within a unit");
}
static const int64_t VEC[][2] = {{0,0},{5,0},{0,7},{3,4},{-1000,3},{7,-3000},{-60,-61},{1,1},{250,-99}};
static P vec(const char* n, int lo, int hi) { int64_t i = sx_concrete(sx_int(n, lo, hi)); return P(VEC[i][0], VEC[i][1]); }
SX_HARNESS(hor_line, "line with horizontal line") {
    const int64_t R = HX_B(100000, 2000000);
    P a = sym("a", R), b = a + vec("dir", 0, 8); int64_t y = sx_int("y", -R, R);
    auto r = LinearAlg2D::lineHorizontalLineIntersection(a, b, y); sx_observe("has", r.has_value());
    sx_assert(r.has_value() == (a.Y != b.Y), "a line crosses every horizontal line unless it is horizontal itself");
    if (!r) { sx_reach("none"); return; }
    sx_observe("x", *r); 
    if (y == a.Y) { sx_assert(*r == a.X, "the crossing at an end point is that end point"); sx_reach("at a"); return; }
    if (y == b.Y) { sx_assert(*r == b.X, "the crossing at an end point is that end point"); sx_reach("at b"); return; }
    near(*r, a, b, y); sx_reach("cross");
}
SX_HARNESS(hor_segment, "segment with horizontal line") {
    const int64_t R = HX_B(100000, 2000000);
    P a = sym("a", R), b = a + vec("dir", 0, 8); int64_t y = sx_int("y", -R, R);
    auto r = LinearAlg2D::segmentHorizontalLineIntersection(a, b, y); sx_observe("has", r.has_value());
    int64_t lo = std::min(a.Y, b.Y), hi = std::max(a.Y, b.Y);
    sx_assert(r.has_value() == sx_and(a.Y != b.Y, sx_and(lo <= y, y <= hi)), "a segment crosses a height exactly when it spans it and is not horizontal");
    if (!r) { sx_reach("none"); return; }
    sx_observe("x", *r); near(*r, a, b, y); sx_reach("cross");
}
SX_HARNESS(line_line, "intersection of two lines and of two segments") {
    const int64_t R = HX_B(500, 4000);
    P a(17, -20), b = a + vec("ab", 0, 8), c = sym("c", R), d = c + vec("cd", 0, 8);
    float t = -7, u = -7; bool r = LinearAlg2D::lineLineIntersection(a, b, c, d, t, u); sx_observe("r", r);
    int64_t div = crs(b - a, d - c), tn = crs(c - a, d - c), un = crs(c - a, b - a);
    sx_assert(r == (div != 0), "two lines intersect exactly when they are not parallel");
    if (!r) { sx_reach("parallel"); return; }
    bool s = LinearAlg2D::segmentSegmentIntersection(a, b, c, d, t, u); sx_observe("s", s);
    int64_t D = sx_abs(div), T = div > 0 ? tn : -tn, U = div > 0 ? un : -un;
    sx_assert(s == sx_and(sx_and(T >= 0, T <= D), sx_and(U >= 0, U <= D)), "two segments intersect exactly when both parameters of the crossing lie within them");
    sx_reach("cross");
}
