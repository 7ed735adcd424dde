// Contracts of the two ClipperLib queries that the checked code uses (the library itself is a binary we cannot encode).
// Only the symbolic build uses them; the native replay calls the real library, so a wrong contract shows as a disagreement.
#pragma once
#ifdef SX_SYMBOLIC
#include <polyclipping/clipper.hpp>
namespace ClipperLib {
double Area(const Path& p) {
    if (p.size() < 3) return 0; int64_t a = 0;
    for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++) a += (p[j].X + p[i].X) * (p[j].Y - p[i].Y);
    return -double(a) * 0.5;
}
void ReversePath(Path& p) { for (size_t i = 0, j = p.size(); i + 1 < j; i++) { --j; IntPoint t = p[i]; p[i] = p[j]; p[j] = t; } }
bool Orientation(const Path& p) { return Area(p) >= 0; }
int PointInPolygon(const IntPoint& q, const Path& p) {
    if (p.size() < 3) return 0; int64_t parity = 0; bool border = false;
    for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++) {
        int64_t ex = p[i].X - p[j].X, ey = p[i].Y - p[j].Y, ax = p[j].X - q.X, ay = p[j].Y - q.Y, bx = p[i].X - q.X, by = p[i].Y - q.Y, c = ey * ax - ex * ay;
        border = (bool)(border | ((c == 0) & (std::min(ax, bx) <= 0) & (std::max(ax, bx) >= 0) & (std::min(ay, by) <= 0) & (std::max(ay, by) >= 0)));
        bool up = (bool)((ay <= 0) & (by > 0)), dn = (bool)((by <= 0) & (ay > 0)); // half-open crossing of the ray to +X
        if ((up & (c > 0)) | (dn & (c < 0))) parity ^= 1; // a fork: the edge is crossed or not
    }
    if (border) return -1;
    return (int)parity;
}
}
#endif
