//@ src: src/utils/AABB.cpp src/utils/AABB3D.cpp src/utils/MinimumSpanningTree.cpp
//@ bound: union-find: four elements (thorough: five), every history of four (thorough: five) unions of any two handles, finds in between; spanning tree: four points (thorough: five), two of them with symbolic coordinates 0..6; boxes: all coordinates within +-10^6, three points; distances: listed boxes, every query point within 2 mm (thorough: 100 mm)
//@ run: unionfind quick=60 thorough=600
//@ run: mst quick=60 thorough=600
//@ run: box2 quick=60 thorough=300
//@ run: boxdist quick=60 thorough=300
//@ run: box3 quick=40 thorough=300
#include "hx.h"
#include "geometry/Shape.h"
#include "geometry/Polygon.h"
#include "utils/AABB.h"
#include "utils/AABB3D.h"
#include "utils/MinimumSpanningTree.h"
#include "utils/UnionFind.h"
using namespace cura;
SX_HARNESS(unionfind, "after any history of unions exactly the united elements have the same representative") {
    const int N = HX_B(4, 5), M = HX_B(4, 5); UnionFind<int> u; int cls[6]; for (int i = 0; i < N; i++) { size_t h = u.add(10 * i); sx_assert(h == (size_t)i, "handles count up"); cls[i] = i; }
    for (int k = 0; k < M; k++) { int a = k ? (int)sx_concrete(sx_int(hx_n("a", k).c_str(), 0, N - 1)) : 0, b = (int)sx_concrete(sx_int(hx_n("b", k).c_str(), 0, N - 1)); sx_assume(a != b); size_t r = u.unite((size_t)a, (size_t)b); int from = cls[a], to = cls[b]; for (int i = 0; i < N; i++) if (cls[i] == from) cls[i] = to; sx_assert(r < (size_t)N && cls[r] == cls[b], "the union returns a member of the united set"); }
    for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) sx_assert((u.find(10 * i) == u.find(10 * j)) == (cls[i] == cls[j]), "two elements have the same representative exactly if they were united");
    for (int i = 0; i < N; i++) { size_t r = u.findByHandle(i); sx_assert(r == u.find(10 * i) && u.findByHandle(r) == r && cls[r] == cls[i], "the representative is a member of the set"); } sx_assert(u.find(999) == (size_t)-1 && u.findByHandle(77) == (size_t)-1, "an unknown element is reported"); sx_reach("end");
}
SX_HARNESS(mst, "the tree spans all points with the least total length edges") {
    const int N = HX_B(4, 5); std::vector<Point2LL> v{ Point2LL(0, 0), Point2LL(HX_B(5, 6), 1), Point2LL(2, 5) }; for (int i = 3; i < N + 0; i++) { Point2LL p{ sx_int(hx_n("x", i).c_str(), 0, 6), sx_int(hx_n("y", i).c_str(), 0, 6) }; p = Point2LL(sx_concrete(p.X), sx_concrete(p.Y)); v.push_back(p); } for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) sx_assume(v[i] != v[j]);
    std::vector<Point2LL> w = v; MinimumSpanningTree t(w); auto vs = t.vertices(); sx_assert(vs.size() == v.size(), "every point is in the tree"); bool adj[5][5] = {}; int ends = 0, leaves = 0; auto ix = [&](Point2LL p) { for (int i = 0; i < N; i++) if (v[i] == p) return i; return -1; };
    for (int i = 0; i < N; i++) { int d = 0; for (Point2LL q : t.adjacentNodes(v[i])) { int j = ix(q); sx_assert(j >= 0 && j != i && !adj[i][j], "the tree joins distinct given points, once"); adj[i][j] = true; ends++; d++; } leaves += d <= 1; }
    sx_assert(ends == 2 * (N - 1), "a tree of n points has n-1 edges"); sx_assert((int)t.leaves().size() == leaves, "the leaves are the points with one edge"); bool R[5][5]; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { R[i][j] = i == j || adj[i][j]; sx_assert(adj[i][j] == adj[j][i], "edges are seen from both ends"); }
    for (int k = 0; k < N; k++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) R[i][j] = R[i][j] || (R[i][k] && R[k][j]); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) sx_assert(R[i][j], "the tree connects all points");
    auto d2 = [&](int i, int j) { return vSize2(v[i] - v[j]); }; // minimal iff no edge of the tree is longer than a pair its removal separates
    for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) if (adj[i][j]) { bool Q[5][5]; for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) Q[a][b] = a == b || (adj[a][b] && !((a == i && b == j) || (a == j && b == i))); for (int k = 0; k < N; k++) for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) Q[a][b] = Q[a][b] || (Q[a][k] && Q[k][b]); for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) if (Q[a][i] && Q[b][j]) sx_assert(d2(i, j) <= d2(a, b), "no shorter edge could replace an edge of the tree"); }
    sx_reach("end");
}
static const int64_t C = 1000000;
static int64_t co(const char* n, int i) { return sx_int(hx_n(n, i).c_str(), -C, C); }
SX_HARNESS(box2, "2D boxes: containment, overlap, inclusion, extension") {
    Point2LL p[3]; for (int i = 0; i < 3; i++) p[i] = Point2LL{ co("x", i), co("y", i) }; Polygon poly({ p[0], p[1], p[2] }, false); AABB b(poly); int64_t x0 = hx_min(p[0].X, hx_min(p[1].X, p[2].X)), x1 = hx_max(p[0].X, hx_max(p[1].X, p[2].X)), y0 = hx_min(p[0].Y, hx_min(p[1].Y, p[2].Y)), y1 = hx_max(p[0].Y, hx_max(p[1].Y, p[2].Y));
    auto is = [](const AABB& b, int64_t x0, int64_t y0, int64_t x1, int64_t y1) { return sx_and(sx_and(b.min_.X == x0, b.max_.X == x1), sx_and(b.min_.Y == y0, b.max_.Y == y1)); };
    sx_assert(is(b, x0, y0, x1, y1), "the box of a polygon is the smallest that contains its vertices"); Shape s; s.push_back(poly); sx_assert(is(AABB(s), x0, y0, x1, y1), "the box of a shape is that of its vertices"); sx_assert(sx_and(b.width() == x1 - x0, b.height() == y1 - y0), "width and height"); sx_assert(b.area() == (x1 - x0) * (y1 - y0), "area");
    Point2LL m = b.getMiddle(); sx_assert(sx_and(sx_abs(2 * m.X - x0 - x1) <= 1, sx_abs(2 * m.Y - y0 - y1) <= 1), "the middle lies halfway");
    Point2LL q{ co("qx", 0), co("qy", 0) }; bool in = sx_and(sx_and(q.X >= x0, q.X <= x1), sx_and(q.Y >= y0, q.Y <= y1)); sx_assert(b.contains(q) == in, "a point is contained exactly if it lies within all four sides");
    Point2LL u{ co("ux", 0), co("uy", 0) }, w{ co("wx", 0), co("wy", 0) }; AABB o({ u, w }); AABB c = b; c.include(q); sx_assert(is(c, hx_min(x0, q.X), hx_min(y0, q.Y), hx_max(x1, q.X), hx_max(y1, q.Y)), "including a point extends the box just to it"); c = b; c.include(o); sx_assert(is(c, hx_min(x0, o.min_.X), hx_min(y0, o.min_.Y), hx_max(x1, o.max_.X), hx_max(y1, o.max_.Y)), "including a box extends the box just to it");
    sx_assert(b.hit(o) == sx_and(sx_and(hx_max(x0, o.min_.X) <= hx_min(x1, o.max_.X), true), hx_max(y0, o.min_.Y) <= hx_min(y1, o.max_.Y)), "two boxes hit exactly if they share a point"); sx_assert(b.contains(o) == sx_and(b.contains(o.min_), b.contains(o.max_)), "a box is contained exactly if its corners are"); AABB none; sx_assert(none.area() < 0 && b.contains(none) && !none.contains(b) && !none.contains(q), "an empty box contains nothing and is contained");
    int d = (int)sx_int("d", -1000, 1000); c = b; c.expand(d); sx_assert(is(c, x0 - d, y0 - d, x1 + d, y1 + d), "expanding moves every side outward"); AABB e; e.expand(d); sx_assert(e.area() < 0, "expanding an empty box leaves it empty"); Polygon r = b.toPolygon(); sx_assert(r.size() == 4, "a box has four corners"); sx_assert(is(AABB(r), x0, y0, x1, y1), "its outline has the same box"); sx_reach("end");
}
SX_HARNESS(boxdist, "the distance of a point to a box is that to the nearest point of its outline, negative inside") {
    static const int U[4][4] = { { 0, 0, 7, 10 }, { -1000, 350, 2, 1300 }, { 123, -50000, 64321, 1 }, { -3, -4, 9, 9 } }; const int64_t D = HX_B(2000, 100000); const int* z = U[sx_concrete(sx_int("box", 0, HX_B(1, 3)))]; Point2LL u(z[0], z[1]); int64_t w = z[2], h = z[3]; Point2LL q{ sx_int("qx", -D, D), sx_int("qy", -D, D) }; AABB b(u, Point2LL(u.X + w, u.Y + h)); int64_t got = b.distanceSquared(q);
    int64_t l = q.X - u.X, r = u.X + w - q.X, bo = q.Y - u.Y, t = u.Y + h - q.Y; bool in = sx_and(sx_and(l >= 0, r >= 0), sx_and(bo >= 0, t >= 0)); int64_t dx = hx_max(0, hx_max(-l, -r)), dy = hx_max(0, hx_max(-bo, -t)), m = hx_min(hx_min(l, r), hx_min(bo, t)), want = in ? -(m * m) : dx * dx + dy * dy; sx_observe("d2", got); sx_assert(got == want, "the signed squared distance is exact"); sx_reach("end");
}
SX_HARNESS(box3, "3D boxes") {
    Point3LL a{ co("ax", 0), co("ay", 0), co("az", 0) }, p{ co("px", 0), co("py", 0), co("pz", 0) }; AABB3D b; b.include(a); b.include(p); auto is = [](const AABB3D& b, Point3LL l, Point3LL h) { return sx_and(sx_and(sx_and(b.min_.x_ == l.x_, b.min_.y_ == l.y_), b.min_.z_ == l.z_), sx_and(sx_and(b.max_.x_ == h.x_, b.max_.y_ == h.y_), b.max_.z_ == h.z_)); };
    Point3LL l(hx_min(a.x_, p.x_), hx_min(a.y_, p.y_), hx_min(a.z_, p.z_)), h(hx_max(a.x_, p.x_), hx_max(a.y_, p.y_), hx_max(a.z_, p.z_)); sx_assert(is(b, l, h), "the box is the smallest that contains its points"); sx_assert(sx_and(sx_and(b.spanX() == h.x_ - l.x_, b.spanY() == h.y_ - l.y_), b.spanZ() == h.z_ - l.z_), "the spans are its extents");
    Point3LL u{ co("ux", 0), co("uy", 0), co("uz", 0) }, w{ co("wx", 0), co("wy", 0), co("wz", 0) }; AABB3D o; o.include(u); o.include(w); bool hit = sx_and(sx_and(hx_max(l.x_, o.min_.x_) <= hx_min(h.x_, o.max_.x_), hx_max(l.y_, o.min_.y_) <= hx_min(h.y_, o.max_.y_)), hx_max(l.z_, o.min_.z_) <= hx_min(h.z_, o.max_.z_)); sx_assert(b.hit(o) == hit, "two boxes hit exactly if they share a point");
    AABB3D c = b; c.include(o); sx_assert(is(c, Point3LL(hx_min(l.x_, o.min_.x_), hx_min(l.y_, o.min_.y_), hx_min(l.z_, o.min_.z_)), Point3LL(hx_max(h.x_, o.max_.x_), hx_max(h.y_, o.max_.y_), hx_max(h.z_, o.max_.z_))), "including a box extends just to it"); AABB f = b.flatten(); sx_assert(sx_and(sx_and(f.min_.X == l.x_, f.min_.Y == l.y_), sx_and(f.max_.X == h.x_, f.max_.Y == h.y_)), "flattening keeps X and Y");
    int64_t z = co("z", 0); c = b; c.includeZ(z); sx_assert(is(c, Point3LL(l.x_, l.y_, hx_min(l.z_, z)), Point3LL(h.x_, h.y_, hx_max(h.z_, z))), "including a height extends only in Z"); c = b; c.translate(u); sx_assert(is(c, l + u, h + u), "translation moves both corners"); c = b; c.translate(Point2LL(u.x_, u.y_)); sx_assert(is(c, Point3LL(l.x_ + u.x_, l.y_ + u.y_, l.z_), Point3LL(h.x_ + u.x_, h.y_ + u.y_, h.z_)), "translation in the plane leaves Z");
    int64_t d = sx_int("d", -C, C); c = b; c.expand(d); bool inv = sx_or(sx_or(l.x_ - d > h.x_ + d, l.y_ - d > h.y_ + d), l.z_ - d > h.z_ + d); if (inv) sx_assert(c.min_.x_ > c.max_.x_, "a box shrunk to nothing is empty"); else sx_assert(is(c, Point3LL(l.x_ - d, l.y_ - d, l.z_ - d), Point3LL(h.x_ + d, h.y_ + d, h.z_ + d)), "expanding moves every side outward");
    c = b; c.expandXY(d); inv = sx_or(l.x_ - d > h.x_ + d, l.y_ - d > h.y_ + d); if (inv) sx_assert(c.min_.x_ > c.max_.x_, "a box shrunk to nothing is empty"); else sx_assert(is(c, Point3LL(l.x_ - d, l.y_ - d, l.z_), Point3LL(h.x_ + d, h.y_ + d, h.z_)), "expanding in the plane leaves Z"); sx_reach("end");
}
