//@ src: src/utils/linearAlg2D.cpp src/geometry/Shape.cpp src/geometry/Polygon.cpp src/geometry/ClosedPolyline.cpp src/geometry/Point2LL.cpp src/geometry/PointsSet.cpp src/geometry/Polyline.cpp src/geometry/LinesSet.cpp src/geometry/SingleShape.cpp src/geometry/PointMatrix.cpp src/geometry/OpenLinesSet.cpp src/geometry/ClosedLinesSet.cpp src/geometry/MixedLinesSet.cpp src/utils/AABB.cpp src/utils/ListPolyIt.cpp
//@ bound: side/ray/collision tests: every coordinate within +-30000 (thorough 10^6); corner test: 5x5 listed directions, query within 500; containment: triangles with one fixed corner, one of 2 (thorough: any) corners and one symbolic corner, within 8 (thorough 40) and every query, a fixed outline+hole+island (thorough: +neighbour) shape and every query point within 400
//@ assume: ClipperLib::PointInPolygon and Area return what their documentation says (contract in engine/clipper_model.h, compared with the library on every replayed path)
//@ run: right_of_line quick=40 thorough=600
//@ run: left_of_line quick=30 thorough=300
//@ run: collide quick=60 thorough=900
//@ run: inside_corner quick=60 thorough=600
//@ run: find_inside_tri quick=60 thorough=900
//@ run: find_inside_nested quick=60 thorough=600
#include "hx.h"
#include "clipper_model.h"
#include "utils/linearAlg2D.h"
#include "geometry/Shape.h"
#include "geometry/Polygon.h"
using namespace cura;
typedef Point2LL P;
static P sym(const char* n, int64_t r) { int64_t x = sx_int((std::string(n) + ".x").c_str(), -r, r), y = sx_int((std::string(n) + ".y").c_str(), -r, r); return P(x, y); }
static int64_t crs(P a, P b) { return a.X * b.Y - a.Y * b.X; }
static int64_t dt(P a, P b) { return a.X * b.X + a.Y * b.Y; }
static bool onSeg(P p, P a, P b) { return sx_and(sx_and(crs(b - a, p - a) == 0, sx_and(p.X >= std::min(a.X, b.X), p.X <= std::max(a.X, b.X))), sx_and(p.Y >= std::min(a.Y, b.Y), p.Y <= std::max(a.Y, b.Y))); }
static int64_t cross_right(P p, P a, P b) { // exact: the ray from p to +X strictly crosses the half-open edge
    bool up = sx_and(a.Y <= p.Y, b.Y > p.Y), dn = sx_and(b.Y <= p.Y, a.Y > p.Y); int64_t c = crs(b - a, p - a);
    return (int64_t)sx_or(sx_and(up, c > 0), sx_and(dn, c < 0));
}
SX_HARNESS(right_of_line, "the ray test used for containment") {
    const int64_t R = HX_B(30000, 1000000);
    P p = sym("p", R), a = sym("a", R), b = sym("b", R);
    short r = LinearAlg2D::pointLiesOnTheRightOfLine(p, a, b); sx_observe("r", r);
    bool on = onSeg(p, a, b), skip = sx_and(sx_and(p == a, b.Y < a.Y), true); // the upper end of a falling edge belongs to the preceding edge
    sx_assert((r == 0) == sx_and(on, !skip), "a point is reported on the edge exactly when it lies on it (the upper end of a falling edge excepted)");
    sx_assert((r == 1) == (bool)cross_right(p, a, b), "the edge is reported to the right exactly when the ray to +X crosses it");
    sx_reach("end");
}
SX_HARNESS(left_of_line, "side of a line") {
    const int64_t R = HX_B(30000, 1000000);
    P p = sym("p", R), a = sym("a", R), b = sym("b", R);
    int64_t l = LinearAlg2D::pointIsLeftOfLine(p, a, b), k = LinearAlg2D::isAcuteCorner(a, p, b); sx_observe("l", l); sx_observe("k", k);
    sx_assert(l == crs(b - a, p - a), "side of line is the signed area: positive on the left");
    sx_assert(k == dt(a - p, b - p), "a corner is acute exactly when the dot product of its legs is positive"); sx_reach("end");
}
SX_HARNESS(collide, "collision of an axis-aligned segment with another") {
    const int64_t R = HX_B(30000, 1000000);
    int64_t y = sx_int("y", -R, R), x0 = sx_int("x0", -R, R), x1 = sx_int("x1", -R, R); sx_assume(x0 <= x1);
    P c = sym("c", R), d = sym("d", R);
    bool r = LinearAlg2D::lineSegmentsCollide(P(x0, y), P(x1, y), c, d); sx_observe("r", r);
    int64_t lo = std::min(c.Y, d.Y), hi = std::max(c.Y, d.Y);
    if (lo > y || hi < y) { sx_assert(!r, "segments on different heights do not collide"); sx_reach("apart"); return; }
    if (lo == hi) { sx_assert(r == sx_and(std::min(c.X, d.X) <= x1, std::max(c.X, d.X) >= x0), "overlapping horizontal segments collide exactly when their ranges meet"); sx_reach("flat"); return; }
    int64_t h = d.Y - c.Y, n = (d.X - c.X) * (y - c.Y); if (h < 0) { h = -h; n = -n; } // crossing at c.X + n/h
    int64_t a = (x0 - c.X) * h, b = (x1 - c.X) * h;
    sx_assert(sx_imp(sx_and(n >= a, n <= b), r), "crossing segments are reported to collide");
    sx_assert(sx_imp(r, sx_and(n > a - h, n < b + h)), "segments that miss by more than a unit are not reported to collide"); sx_reach("cross");
}
static const int64_t DIR[][2] = {{200,0},{140,150},{-300,10},{-20,-250},{170,-60}};
SX_HARNESS(inside_corner, "left of a corner") {
    int64_t i = sx_concrete(sx_int("i", 0, 4)), j = sx_concrete(sx_int("j", 0, 4)); if (i == j) return;
    P b(-40, 70), a(b.X + DIR[i][0], b.Y + DIR[i][1]), c(b.X + DIR[j][0], b.Y + DIR[j][1]), q = sym("q", 500);
    bool r = LinearAlg2D::isInsideCorner(a, b, c, q); sx_observe("r", r);
    int64_t la = crs(b - a, q - b), lc = crs(c - b, q - b), turn = crs(b - a, c - b);
    // exact: with a left turn (or straight) left of both legs, with a right turn left of either; one unit of slack at the legs
    P v = q - b; int64_t tol = sx_abs(v.X) + sx_abs(v.Y);
    bool sureL = turn >= 0 ? sx_and(la > tol, lc > tol) : sx_or(la > tol, lc > tol);
    bool sureR = turn >= 0 ? sx_or(la < -tol, lc < -tol) : sx_and(la < -tol, lc < -tol);
    sx_assert(sx_imp(sureL, r), "a point clearly left of the corner is reported inside");
    sx_assert(sx_imp(sureR, !r), "a point clearly right of the corner is not reported inside"); sx_reach("end");
}
static size_t N = NO_INDEX;
SX_HARNESS(find_inside_tri, "containment in a triangle with arbitrary vertices") {
    const int64_t R = HX_B(8, 40);
    P a(3, -5), c = sym("c", R), q = sym("q", R + 2), b; if (HX_T) b = sym("b", R); else { static const int64_t B[][2] = {{9,2},{-8,-6}}; int64_t i = sx_concrete(sx_int("b", 0, 1)); b = P(B[i][0], B[i][1]); }
    Polygon poly; poly.push_back(a); poly.push_back(b); poly.push_back(c); Shape s; s.push_back(poly);
    bool border = sx_concrete(sx_int("border", 0, 1));
    bool on = sx_or(onSeg(q, a, b), sx_or(onSeg(q, b, c), onSeg(q, c, a))), odd = (cross_right(q, a, b) + cross_right(q, b, c) + cross_right(q, c, a)) & 1;
    size_t f = s.findInside(q, border); bool in = s.inside(q, border), in1 = s[0].inside(q, border); sx_observe("f", f); sx_observe("in", in); sx_observe("in1", in1);
    double ar = s.area(); sx_observe_d("area", ar);
    sx_assert(ar * 2 == double(crs(b - a, c - a)), "area is the signed shoelace area, positive for counter-clockwise outlines");
    if (on) { sx_assert(sx_and(in == border, in1 == border), "a border point is classified as requested"); if (border) sx_assert(f == 0, "a border point is found on its polygon"); sx_reach("border"); return; }
    sx_assert(sx_and(in == odd, in1 == odd), "a point off the border is inside exactly when a ray crosses the outline an odd number of times");
    sx_assert(f == (odd ? 0 : N), "the containing polygon is found"); sx_reach("off");
}
SX_HARNESS(find_inside_nested, "containment in an outline with a hole, an island and a neighbour") {
    Shape s; s.push_back(Polygon({ P(-200, -210), P(200, -190), P(0, 200) }, false)); s.push_back(Polygon({ P(-100, -90), P(0, 110), P(90, -95) }, false));
    s.push_back(Polygon({ P(-40, -50), P(25, -40), P(0, 40) }, false)); if (HX_T) s.push_back(Polygon({ P(250, -100), P(350, 0), P(250, 120) }, false));
    P q = sym("q", 400); int cnt = 0, w[4] = {}; bool on = false; size_t exp = N;
    for (size_t i = 0; i < s.size(); i++) { const auto& p = s[i]; for (size_t k = 0; k < p.size(); k++) { if (onSeg(q, p[k], p[(k + 1) % p.size()])) on = true; if (cross_right(q, p[k], p[(k + 1) % p.size()])) w[i] ^= 1; } }
    if (on) { sx_assert(s.inside(q, true) && !s.inside(q, false), "a border point is classified as requested"); sx_assert(s.findInside(q, true) != N, "a border point is found on a polygon"); sx_reach("border"); return; }
    for (int i = 0; i < 4; i++) if (w[i]) { cnt++; exp = i; }
    size_t f = s.findInside(q, false); bool in = s.inside(q, false); sx_observe("f", f); sx_observe("in", in);
    sx_assert(in == (cnt & 1), "a point is inside the shape exactly when it is inside an odd number of polygons");
    sx_assert(f == ((cnt & 1) ? exp : N), "the innermost polygon around a point inside the shape is found"); sx_reach("off");
}
