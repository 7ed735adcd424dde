//@ src: src/utils/SquareGrid.cpp
//@ bound: cell size 10; coordinates -12..22 (quick) or -25..35 (thorough) for lines and triangles; point grids of two points (thorough: three) with coordinates and query in -22..22 and radius to 12
//@ assume: the grid lookups are translation-independent beyond the cells around the origin that the bound contains (negative, double-width zero and positive cells)
//@ run: line quick=150 thorough=800
//@ run: triangle quick=60 thorough=600
//@ run: nearby quick=60 thorough=300
//@ run: points quick=120 thorough=800
//@ run: lines quick=100 thorough=800
#include "hx.h"
#include "utils/SparseLineGrid.h"
#include "utils/SparsePointGridInclusive.h"
#include "utils/SquareGrid.h"
using namespace cura;
static const coord_t S = 10;
static const int LO = HX_B(-12, -25), HI = HX_B(12, 35);
static void cellRange(int64_t k, int64_t& lo, int64_t& hi) { lo = k > 0 ? k * S : (k - 1) * S; hi = k < 0 ? k * S : (k + 1) * S; }
// the segment a-b passes through the open interior of the box
static bool crosses(Point2LL a, Point2LL b, int64_t x0, int64_t x1, int64_t y0, int64_t y1) {
    bool over = sx_and(sx_and(hx_min(a.X, b.X) < x1, hx_max(a.X, b.X) > x0), sx_and(hx_min(a.Y, b.Y) < y1, hx_max(a.Y, b.Y) > y0));
    int64_t dx = b.X - a.X, dy = b.Y - a.Y; auto c = [&](int64_t x, int64_t y) { return dx * (y - a.Y) - dy * (x - a.X); };
    int64_t c1 = c(x0, y0), c2 = c(x0, y1), c3 = c(x1, y0), c4 = c(x1, y1);
    bool pos = sx_or(sx_or(c1 > 0, c2 > 0), sx_or(c3 > 0, c4 > 0)), neg = sx_or(sx_or(c1 < 0, c2 < 0), sx_or(c3 < 0, c4 < 0));
    return sx_and(over, sx_or(sx_and(pos, neg), sx_and(dx == 0, dy == 0))); }
SX_HARNESS(line, "every cell a line passes through is visited") {
    SquareGrid g(S); Point2LL a{ sx_int("ax", LO, HI), sx_int("ay", LO, HI) }, b{ sx_int("bx", LO, HI), sx_int("by", LO, HI) }; bool vis[16][16] = {}; const int O = 8; int n = 0; bool in = true;
    bool done = g.processLineCells(std::make_pair(a, b), [&](Point2LL c) { int x = (int)sx_concrete(c.X) + O, y = (int)sx_concrete(c.Y) + O; if (x < 0 || y < 0 || x > 15 || y > 15) in = false; else vis[y][x] = true; n++; return n < 200; });
    sx_assert(in, "no cell far outside the line is visited"); sx_assert(done, "all cells are processed"); sx_observe("cells", n);
    for (int k = HX_B(-2, -3); k <= HX_B(2, 4); k++) for (int l = HX_B(-2, -3); l <= HX_B(2, 4); l++) { int64_t x0, x1, y0, y1; cellRange(k, x0, x1); cellRange(l, y0, y1); if (!vis[l + O][k + O]) sx_assert(!crosses(a, b, x0, x1, y0, y1), "every cell the line passes through is visited"); else sx_assert(crosses(a, b, x0 - S - 1, x1 + S + 1, y0 - S - 1, y1 + S + 1), "only cells within one cell of the line are visited"); }
    Point2LL ca = g.toGridPoint(a), cb = g.toGridPoint(b); sx_assert(vis[sx_concrete(ca.Y) + O][sx_concrete(ca.X) + O], "the start's cell is visited"); sx_assert(vis[sx_concrete(cb.Y) + O][sx_concrete(cb.X) + O], "the end's cell is visited");
    int stop = 0; bool r = g.processLineCells(std::make_pair(a, b), [&](Point2LL) { stop++; return false; }); sx_assert(!r && stop == 1, "processing stops when asked to"); sx_reach("end");
}
SX_HARNESS(triangle, "every cell that an axis-aligned triangle covers is visited") {
    SquareGrid g(S); const int L = HX_B(-12, -22), H = HX_B(12, 22); Point2LL a{ sx_int("ax", L, H), sx_int("ay", L, H) }, b{ sx_int("bx", L, H), sx_int("by", L, H) }; sx_assume(sx_and(a.X != b.X, a.Y != b.Y)); Point2LL q(b.X, a.Y); // corner of the right angle
    bool vis[12][12] = {}; const int O = 6; bool in = true; g.processAxisAlignedTriangle(a, b, [&](Point2LL c) { int x = (int)sx_concrete(c.X) + O, y = (int)sx_concrete(c.Y) + O; if (x < 0 || y < 0 || x > 11 || y > 11) in = false; else vis[y][x] = true; return true; });
    sx_assert(in, "no cell far outside the triangle is visited"); int64_t px = sx_int("px", L, H), py = sx_int("py", L, H);
    int64_t side = (b.X - a.X) * (py - a.Y) - (b.Y - a.Y) * (px - a.X), qs = (b.X - a.X) * (q.Y - a.Y) - (b.Y - a.Y) * (q.X - a.X);
    sx_assume(sx_and(sx_and(sx_and(px >= hx_min(a.X, b.X), px <= hx_max(a.X, b.X)), sx_and(py >= hx_min(a.Y, b.Y), py <= hx_max(a.Y, b.Y))), sx_or(sx_and(side >= 0, qs > 0), sx_and(side <= 0, qs < 0))));
    Point2LL c = g.toGridPoint(Point2LL(px, py)); bool seen = false; for (int y = 0; y < 12; y++) for (int x = 0; x < 12; x++) if (vis[y][x]) seen = sx_or(seen, sx_and(c.X == x - O, c.Y == y - O)); sx_assert(seen, "the cell of every point of the triangle is visited"); sx_reach("end");
}
SX_HARNESS(nearby, "every cell within the radius of a query point is visited") {
    SquareGrid g(S); Point2LL q{ sx_int("qx", -25, 25), sx_int("qy", -25, 25) }; int64_t r = sx_int("r", 0, HX_B(12, 25)), dx = sx_int("dx", -25, 25), dy = sx_int("dy", -25, 25); sx_assume(sx_and(dx * dx + dy * dy <= r * r, r >= 0)); Point2LL p(q.X + dx, q.Y + dy), c = g.toGridPoint(p);
    bool seen = false, tight = true; int n = 0; bool done = g.processNearby(q, r, [&](const Point2LL& v) { seen = sx_or(seen, sx_and(v.X == c.X, v.Y == c.Y)); int64_t x0, x1, y0, y1; x0 = v.X * S; y0 = v.Y * S; x1 = q.X - x0; y1 = q.Y - y0; tight = sx_and(tight, sx_and(sx_abs(x1) <= r + 2 * S, sx_abs(y1) <= r + 2 * S)); n++; return n < 100; });
    sx_assert(done, "all cells are processed"); sx_assert(seen, "the cell of every point within the radius is visited"); sx_assert(tight, "no cell is visited further away than the radius plus a cell"); sx_reach("end");
}
SX_HARNESS(points, "a point grid finds all points within the radius, the nearest one, and any one") {
    typedef SparsePointGridInclusive<int> G; G g(S); const int N = HX_B(2, 3); Point2LL p[3]; for (int i = 0; i < N; i++) { p[i].X = sx_int(hx_n("x", i).c_str(), -14, 14); p[i].Y = sx_int(hx_n("y", i).c_str(), i ? -14 : -3, i ? 14 : 3); g.insert(p[i], i); }
    Point2LL q(sx_int("qx", HX_B(-3, -12), HX_B(9, 12)), 4); int64_t r = sx_int("r", 0, HX_B(8, 12)); int seen[3] = {}; for (int v : g.getNearbyVals(q, r)) seen[sx_concrete(v)]++;
    int64_t d[3]; for (int i = 0; i < N; i++) d[i] = (p[i].X - q.X) * (p[i].X - q.X) + (p[i].Y - q.Y) * (p[i].Y - q.Y);
    for (int i = 0; i < N; i++) { sx_assert(seen[i] <= 1, "no element is returned twice"); if (!seen[i]) sx_assert(d[i] > r * r, "every element within the radius is returned"); else sx_assert(sx_and(sx_abs(p[i].X - q.X) <= r + S * 2, sx_abs(p[i].Y - q.Y) <= r + S * 2), "no element is returned from further than the radius plus a cell"); }
    G::Elem e; e.val = -1; bool found = g.getNearest(q, r, e); if (found) { int i = (int)sx_concrete(e.val); sx_assert(d[i] < r * r, "the nearest element lies within the radius"); for (int k = 0; k < N; k++) sx_assert(d[k] >= d[i], "no element is nearer than the nearest"); } else for (int k = 0; k < N; k++) sx_assert(d[k] >= r * r, "no element within the radius goes unnoticed");
    G::Elem f; f.val = -1; bool fo = g.getNearest(q, r, f, [](const G::Elem& x) { return x.val != 0; }); if (fo) { int i = (int)sx_concrete(f.val); sx_assert(i != 0, "the precondition is respected"); for (int k = 1; k < N; k++) sx_assert(d[k] >= d[i], "no eligible element is nearer"); } else for (int k = 1; k < N; k++) sx_assert(d[k] >= r * r, "no eligible element goes unnoticed");
    const G::Elem* any = g.getAnyNearby(q, r); if (any) sx_assert(d[sx_concrete(any->val)] <= r * r, "the element returned is near"); else for (int k = 0; k < N; k++) sx_assert(d[k] > r * r, "an element near is found if there is one"); sx_reach("end");
}
SX_HARNESS(lines, "a line grid finds every line that comes within the radius of the query") {
    typedef std::pair<Point2LL, Point2LL> L; struct Loc { L operator()(const L& l) const { return l; } }; SparseLineGrid<L, Loc> g(S); const int R = HX_B(15, 25); Point2LL a{ sx_int("ax", -R, R), sx_int("ay", -R, R) }, b{ sx_int("bx", -R, R), 7 }; g.insert(L(a, b)); g.insert(L(Point2LL(100, 100), Point2LL(120, 90)));
    Point2LL q(sx_int("qx", -12, 12), HX_B(-3, -3)); int64_t r = 6; bool found = false, far = false; for (auto& l : g.getNearby(q, r)) { if (l.second.Y == 7) found = true; else far = true; }
    sx_assert(!far, "a line elsewhere is not returned"); if (!found) sx_assert(!crosses(a, b, q.X - 4, q.X + 4, q.Y - 4, q.Y + 4), "a line that comes near the query point is found"); sx_reach("end");
}
