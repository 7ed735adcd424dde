//@ src: src/settings/AdaptiveLayerHeights.cpp src/mesh.cpp src/MeshGroup.cpp src/utils/AABB3D.cpp src/geometry/Point3LL.cpp src/settings/Settings.cpp src/ExtruderTrain.cpp
//@ inc: stubs
//@ bound: models of one or two listed triangles (and none) with a gap between them, up to 1 mm high; every first layer height, base height, variation up to base and threshold within the stated ranges, listed step sizes, both slicing tolerances; up to 9 (thorough 14) layers
//@ run: layers quick=120 thorough=900
#define APP_RESOLVER
#include <cura-formulae-engine/eval.h>
#include "app.h"
#include "settings/AdaptiveLayerHeights.h"
#include "mesh.h"
#include <cmath>
using namespace cura;
struct Tri { int64_t z0, z1, z2; int64_t run; }; // corners at heights z0, z1, z2; run = horizontal extent: the slope follows
static const Tri TRI[] = { { 0, 0, 300, 307 }, { 0, 0, 400, 101 }, { 0, 0, 350, 1501 }, { 250, 250, 420, 907 }, { 200, 200, 200, 1000 }, { 0, 0, 420, 0 } };
static const int MODEL[][2] = { { 0, -1 }, { 1, -1 }, { 2, -1 }, { 1, 3 }, { 0, 4 }, { 5, -1 }, { 5, 2 }, { -1, -1 } };
SX_HARNESS(layers, "adaptive layer heights") {
    int m = (int)sx_concrete(sx_int("model", 0, HX_B(6, 7))); bool middle = sx_concrete(sx_int("middle", 0, 1)) != 0; int64_t step = sx_concrete(sx_int("step", 1, HX_B(2, 3))) * 20; int var = (int)sx_concrete(sx_int("variation_steps", 0, 2));
    if (!HX_T) sx_assume((m + middle) % 2 == 0); if (m == 7) sx_assume(var == 0);
    Slice& s = appSetup(1); auto& st = s.scene.settings; st.add("slicing_tolerance", middle ? "middle" : "exclusive"); for (const char* k : { "cutting_mesh", "anti_overhang_mesh", "infill_mesh" }) st.add(k, "false");
    MeshGroup& g = *s.scene.current_mesh_group; g.meshes.emplace_back(st); double slope[2]; int64_t lo[2], hi[2]; int n = 0; int64_t top = 0;
    for (int i = 0; i < 2; i++) if (MODEL[m][i] >= 0) { const Tri& t = TRI[MODEL[m][i]]; g.meshes[0].addFace(Point3LL(0, 1000 * i, t.z0), Point3LL(1000, 1000 * i, t.z1), Point3LL(0, 1000 * i + t.run, t.z2)); lo[n] = t.z0; hi[n] = t.z2; double a = std::atan2(double(t.z2 - t.z0), double(t.run)); slope[n] = t.z2 == t.z0 ? 3.14159265358979 : a; top = t.z2 > top ? t.z2 : top; n++; }
    g.meshes[0].finish(); if (n == 0) top = g.max().z_;
    int64_t base = sx_int("base", 60, 200), threshold = sx_int("threshold", 1, 400), odd = sx_concrete(sx_int("odd", 0, 1)), variation = step * var + odd * 7; if (!HX_T) sx_assume(odd == 0 || var == 1); sx_assume(variation < base); if (n) sx_assume(base - variation >= HX_B(45, 30));
    st.add("layer_height_0", "0.3"); int64_t fl = 300; { static const int64_t F[3] = { 300, 120, 200 }; int fi = (int)sx_concrete(sx_int("firstidx", 0, HX_B(1, 2))); if (!HX_T) sx_assume((step / 20 + fi) % 2 == 0); fl = F[fi]; st.add("layer_height_0", fi == 0 ? "0.3" : fi == 1 ? "0.12" : "0.2"); }
    AdaptiveLayerHeights a(base, variation, step, threshold, &g); const std::vector<AdaptiveLayer>& l = *a.getLayers(); sx_assert(a.getLayerCount() == l.size(), "the number of layers"); sx_assert(l.size() >= 2, "there are at least two layers"); sx_assert(l[0].layer_height_ == fl && l[0].z_position_ == fl, "the first layer has its own height");
    int64_t z = fl, prev = fl, k = 2 * variation / step, mn = base + variation - k * step;
    for (size_t i = 1; i < l.size(); i++) {
        int64_t h = l[i].layer_height_; sx_assert(l[i].z_position_ == z + h, "each layer lies on the one below"); sx_assert(z <= top || i == 1, "layers are only added up to the top of the model");
        bool ok = false; for (int64_t j = 0; j <= k; j++) ok = sx_or(ok, h == base + variation - j * step); sx_assert(ok, "the height of every layer is one of the allowed ones");
        // which heights the rules admit: the thickest one whose detail stays below the threshold, or one that is already more than a step thinner, never more than a step thicker
        int64_t want = mn; bool done = false; bool alive[2] = { true, true };
        for (int64_t j = 0; j <= k && !done; j++) { int64_t c = base + variation - j * step, ub = z + (middle ? c / 2 : c); double sl = 1e9; bool some = false; for (int t = 0; t < n; t++) if (sx_concrete(sx_and(lo[t] <= ub, hi[t] >= z)) && alive[t]) { some = true; sl = std::min(sl, slope[t]); } else alive[t] = false; if (!some) break;
            if (sx_concrete(sx_and(c - prev > step, c > mn))) continue; bool fits = sl > 1.57 && sl < 1.58 ? true : sl > 3 ? true : double(c) / std::tan(sl) <= double(threshold); if (sx_concrete(sx_or(sx_or(fits, j == k), prev - c > step))) { want = c; done = true; } }
        sx_assert(h == want, "the layer is the thickest one whose steps on the slopes it cuts stay below the threshold, thinning out gradually"); prev = h; z += h; }
    sx_assert(z > top, "the layers cover the model"); sx_reach("end");
}
