//@ src: src/geometry/Shape.cpp src/geometry/Polygon.cpp src/geometry/Polyline.cpp src/geometry/ClosedPolyline.cpp src/geometry/LinesSet.cpp src/geometry/PointsSet.cpp src/geometry/PointMatrix.cpp src/utils/linearAlg2D.cpp src/geometry/Point2LL.cpp
//@ bound: convex hull of 4 points with coordinates 0 to 12, one fixed and one above or below it (thorough: 5 points to 100, one fixed); four polygons with symbolic sizes for area filtering; lines of up to 4 points with coordinates to 10^6; rotations by listed vectors of points to 10^6; translation and reversal of lines; quadrilaterals with coordinates 0 to 30 for pruning
//@ run: convex_hull quick=120 thorough=1500
//@ run: small_areas quick=60 thorough=600
//@ run: segments quick=40 thorough=300
//@ run: shift_start quick=30 thorough=100
//@ run: rotation tq=1500 quick=40 thorough=300
//@ run: crossings quick=60 thorough=600
//@ run: pruning quick=60 thorough=600
#include "hx.h"
#include "clipper_model.h"
#include "geometry/Shape.h"
#include "geometry/OpenPolyline.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/SingleShape.h"
#include "geometry/PointMatrix.h"
#include "settings/types/Angle.h"
#include "utils/linearAlg2D.h"
using namespace cura;
typedef Point2LL P;
static P sym(const char* n, int i, int64_t lo, int64_t hi) { P p{ sx_int((hx_n(n, i) + ".x").c_str(), lo, hi), sx_int((hx_n(n, i) + ".y").c_str(), lo, hi) }; return p; }
static int64_t crs(P a, P b) { return a.X * b.Y - a.Y * b.X; }
static bool sameP(P a, P b) { return sx_and(a.X == b.X, a.Y == b.Y); }
SX_HARNESS(convex_hull, "convex hull of the points of a shape") {
    const int N = HX_B(4, 5); std::vector<P> v; for (int i = 0; i < N; i++) v.push_back(i == 0 ? P(5, 6) : i == 1 && !HX_T ? P(5, sx_int("p1.y", 0, 12)) : sym("p", i, 0, HX_B(12, 100)));
    bool line = true; for (int i = 2; i < N; i++) line = sx_and(line, crs(v[1] - v[0], v[i] - v[0]) == 0); sx_assume(!line); for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) sx_assume(!sameP(v[i], v[j]));
    Shape s; Polygon a; for (int i = 0; i < 3; i++) a.push_back(v[i]); s.push_back(a); Polygon b; for (int i = 3; i < N; i++) b.push_back(v[i]); s.push_back(b); s.makeConvex();
    sx_assert(s.size() == 1, "the hull is one polygon"); const Polygon& h = s[0]; size_t n = h.size(); sx_assert(n >= 3, "the hull of points that are not on a line has at least three corners");
    for (size_t i = 0; i < n; i++) { bool in = false; for (auto& p : v) in = sx_or(in, sameP(p, h[i])); sx_assert(in, "every corner of the hull is one of the points"); }
    bool all = true, strict = true; for (size_t i = 0; i < n; i++) { P d = h[(i + 1) % n] - h[i]; for (auto& p : v) all = sx_and(all, crs(d, p - h[i]) >= 0); strict = sx_and(strict, crs(d, h[(i + 2) % n] - h[(i + 1) % n]) > 0); }
    sx_assert(all, "every point lies within the hull"); sx_assert(strict, "the hull turns left at every corner"); sx_reach("end");
}
SX_HARNESS(small_areas, "removal of small outlines and holes") {
    const int N = 4; int mask = (int)sx_concrete(sx_int("holes", 0, 15)); bool rh = sx_concrete(sx_int("remove_holes", 0, 1)) != 0; Shape s; int64_t side[N]; bool hole[N]; double mn = 1.0; int owner[N];
    for (int i = 0; i < N; i++) { hole[i] = mask >> i & 1; side[i] = sx_int(hx_n("side", i).c_str(), 10, 3000); owner[i] = -1; if (hole[i]) for (int j = 0; j < N; j++) if (!(mask >> j & 1) && (j == (i + 1) % N || j == (i + 2) % N)) owner[i] = j; }
    int64_t pos[N]; for (int i = 0; i < N; i++) pos[i] = 10000 * i; for (int i = 0; i < N; i++) if (hole[i] && owner[i] >= 0) pos[i] = pos[owner[i]] + 1; // the hole starts just inside its outline
    for (int i = 0; i < N; i++) { Polygon p; if (hole[i]) { p.push_back(P(pos[i], 1)); p.push_back(P(pos[i], 1001)); p.push_back(P(pos[i] + side[i], 1001)); p.push_back(P(pos[i] + side[i], 1)); } else { p.push_back(P(pos[i], 0)); p.push_back(P(pos[i] + side[i], 0)); p.push_back(P(pos[i] + side[i], 1000 + 2)); p.push_back(P(pos[i], 1000 + 2)); } s.push_back(p); }
    for (int i = 0; i < N; i++) if (hole[i] && owner[i] >= 0) { for (int j = 0; j < i; j++) if (hole[j]) sx_assume(owner[j] != owner[i]); sx_assume(side[i] + 2 <= side[owner[i]]); }
    Shape t = s; t.removeSmallAreas(mn, rh); bool small[N], keep[N]; size_t want = 0; for (int i = 0; i < N; i++) small[i] = side[i] * (hole[i] ? 1000 : 1002) < 1000000;
    for (int i = 0; i < N; i++) { keep[i] = !small[i]; if (!rh && hole[i] && small[i]) keep[i] = owner[i] < 0 || !small[owner[i]]; want += keep[i]; }
    sx_assert(t.size() == want, "the number of polygons kept"); for (int i = 0; i < N; i++) { int found = 0; for (auto& p : t) if (p.size() == 4 && sameP(p[0], s[i][0]) && sameP(p[1], s[i][1])) found++; sx_assert(found == (keep[i] ? 1 : 0), "exactly the polygons of at least the minimal area are kept, and holes of outlines that stay"); } sx_reach("end");
}
SX_HARNESS(segments, "length, segments and comparisons of open and closed lines") {
    int n = (int)sx_concrete(sx_int("n", 2, 4)), kind = (int)sx_concrete(sx_int("kind", 0, 3)); OpenPolyline o; ClosedPolyline c(false), e(true); Polygon g; Polyline* l = kind == 0 ? (Polyline*)&o : kind == 1 ? (Polyline*)&c : kind == 2 ? (Polyline*)&e : (Polyline*)&g; std::vector<P> v;
    if (kind == 2 && n < 3) n = 3; for (int i = 0; i < n; i++) v.push_back(sym("p", i, -1000000, 1000000)); if (kind == 2) v.back() = v.front(); for (auto& p : v) l->push_back(p);
    std::vector<std::pair<P, P>> want; for (int i = 0; i + 1 < n; i++) want.push_back({ v[i], v[i + 1] }); if (kind == 1 || kind == 3) want.push_back({ v[n - 1], v[0] });
    size_t k = 0; bool ok = true; int64_t len = 0; for (auto it = l->beginSegments(); it != l->endSegments(); ++it) { if (k < want.size()) ok = sx_and(ok, sx_and(sameP((*it).start, want[k].first), sameP((*it).end, want[k].second))); k++; } for (auto& w : want) len += vSize(w.second - w.first);
    sx_assert(k == want.size() && l->segmentsCount() == want.size(), "the number of segments"); sx_assert(ok, "segments join consecutive points, and close the line exactly when it is closed");
    sx_assert(l->length() == len, "the length is the sum of the segment lengths"); int64_t limit = sx_int("limit", 0, 12000000); sx_assert(l->shorterThan(limit) == (len < limit), "shorter than agrees with the length");
    OpenLinesSet parts = l->splitIntoSegments(); sx_assert(parts.size() == want.size(), "one line per segment"); for (size_t i = 0; i < parts.size() && i < want.size(); i++) sx_assert(parts[i].size() == 2 && sameP(parts[i][0], want[i].first) && sameP(parts[i][1], want[i].second), "each line is its segment"); sx_assert(parts.length() == len, "the lines together have the same length");
    P d{ sx_int("dx", -1000, 1000), sx_int("dy", -1000, 1000) }; l->translate(d); for (int i = 0; i < n; i++) sx_assert(sameP((*l)[i], v[i] + d), "translation shifts every point"); l->reverse(); for (int i = 0; i < n; i++) sx_assert(sameP((*l)[i], v[n - 1 - i] + d), "reversal reverses the order"); sx_reach("end");
}
SX_HARNESS(shift_start, "choosing another start point of a closed line") {
    bool ex = sx_concrete(sx_int("explicit", 0, 1)) != 0; int n = (int)sx_concrete(sx_int("n", 2, 5)); size_t at = sx_concrete(sx_int("at", 0, 6)); ClosedPolyline c(ex); std::vector<P> v; for (int i = 0; i < n; i++) { v.push_back(sym("p", i, -1000, 1000)); c.push_back(v.back()); } if (ex) c.push_back(v[0]);
    const bool valid = n >= 3; const size_t size0 = c.size(); c.shiftVerticesToStartPoint(at); sx_assert(c.size() == size0, "no point is lost or added"); size_t k = valid && at < size0 ? at % n : 0; for (int i = 0; i < n; i++) sx_assert(sameP(c[i], v[(i + k) % n]), "the line is the same cycle from the chosen point"); if (ex && valid) sx_assert(sameP(c[n], c[0]), "an explicitly closed line stays closed"); sx_reach("end");
}
SX_HARNESS(rotation, "rotations of points") {
    static const int64_t V[8][2] = { { 1, 0 }, { 0, 1 }, { -5, 0 }, { 0, -7 }, { 3, 4 }, { -4, 3 }, { 5, -12 }, { -1, -1 } }; int i = (int)sx_concrete(sx_int("vec", 0, HX_B(6, 7))); P v(V[i][0], V[i][1]); double f = std::sqrt(double(v.X * v.X + v.Y * v.Y)); P p = sym("p", 0, -100000, 100000); PointMatrix m(v); P r = m.apply(p), u = m.unapply(p), back = m.unapply(r);
    double ex = (double(p.X) * v.X + double(p.Y) * v.Y) / f, ey = (double(p.Y) * v.X - double(p.X) * v.Y) / f; auto near = [](int64_t a, double b, double t) { return sx_and(double(a) - b <= t, b - double(a) <= t); };
    sx_assert(sx_and(near(r.X, ex, 0.51), near(r.Y, ey, 0.51)), "a point is expressed along and across the direction"); double ux = (double(p.X) * v.X - double(p.Y) * v.Y) / f, uy = (double(p.X) * v.Y + double(p.Y) * v.X) / f; sx_assert(sx_and(near(u.X, ux, 0.51), near(u.Y, uy, 0.51)), "the inverse rotation");
    if (i < 4) sx_assert(sx_and(sx_abs(back.X - p.X) <= 1, sx_abs(back.Y - p.Y) <= 1), "rotating back gives the point, to a micron"); sx_reach("end");
}
SX_HARNESS(crossings, "crossings of a segment with the outlines of a shape") {
    Shape s; Polygon a; a.push_back(P(0, 0)); a.push_back(P(100, 0)); a.push_back(P(100, 60)); a.push_back(P(0, 60)); Polygon b; b.push_back(P(30, 20)); b.push_back(P(30, 40)); b.push_back(P(70, 40)); b.push_back(P(70, 20)); s.push_back(a); s.push_back(b);
    bool ver = sx_concrete(sx_int("vertical", 0, 1)) != 0; int64_t c = sx_int("c", -50, 150), f = HX_T ? sx_int("from", -200, 200) : sx_concrete(sx_int("from", 0, 2)) * 70 - 90, t = sx_int("to", -200, 200); sx_assume(f != t); P p = ver ? P(c, f) : P(f, c), q = ver ? P(c, t) : P(t, c); std::vector<float> r = s.intersectionsWithSegment(p, q);
    static const int64_t X[2][4] = { { 0, 100, 0, 60 }, { 30, 70, 20, 40 } }; size_t want = 0; int64_t lo = hx_min(f, t), hi = hx_max(f, t); bool touching = false;
    for (auto& x : X) { int64_t a0 = ver ? x[0] : x[2], a1 = ver ? x[1] : x[3], b0 = ver ? x[2] : x[0], b1 = ver ? x[3] : x[1]; touching = sx_or(touching, sx_or(c == a0, c == a1)); if (sx_and(c > a0, c < a1)) { want += sx_and(lo <= b0, b0 <= hi); want += sx_and(lo <= b1, b1 <= hi); } }
    sx_assume(!touching); sx_assert(r.size() == want, "one crossing per outline that is crossed"); for (float v : r) sx_assert(v >= 0.0f && v <= 1.0f, "crossings lie on the segment"); sx_reach("end");
}
SX_HARNESS(pruning, "removal of spikes and of tiny edges only removes points") {
    int n = 4; int op = (int)sx_concrete(sx_int("op", 0, 1)); std::vector<P> v; Polygon g; for (int i = 0; i < n; i++) { v.push_back(sym("p", i, 0, 30)); g.push_back(v.back()); } for (int i = 0; i < n; i++) sx_assume(!sameP(v[i], v[(i + 1) % n])); Shape s; Polygon r;
    if (op == 0) { s.push_back(g); s.removeDegenerateVerts(); bool spike = false; for (int i = 0; i < n; i++) { P a = v[i] - v[(i + n - 1) % n], b = v[(i + 1) % n] - v[i]; spike = sx_or(spike, dot(a, b) <= -(vSize(a) * vSize(b))); } if (s.empty()) { sx_assert(spike, "a polygon without spikes is kept"); sx_reach("removed"); return; } r = s[0]; sx_assert(sx_or((int)r.size() == n, spike), "points are only removed at spikes"); }
    else { int64_t len = 10; g.smooth2((int)len, r); for (int i = 1; i < n; i++) { bool in = false; for (auto& p : r) in = sx_or(in, sameP(p, v[i])); bool shortNear = false; P a = v[i] - v[i - 1], b = v[(i + 1) % n] - v[i]; shortNear = sx_and(a.X * a.X + a.Y * a.Y <= len * len, b.X * b.X + b.Y * b.Y <= len * len); sx_assert(sx_or(in, shortNear), "a corner is only removed between two short edges"); } }
    size_t j = 0; for (size_t i = 0; i < (size_t)n && j < r.size(); i++) if (sameP(r[j], v[i])) j++; sx_assert(j == r.size(), "the remaining points keep their order"); sx_reach("end");
}
