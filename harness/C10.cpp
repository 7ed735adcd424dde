//@ inc: stubs
//@ src: src/settings/Settings.cpp src/settings/FlowTempGraph.cpp src/ExtruderTrain.cpp src/utils/Matrix4x3D.cpp
//@ bound: every combination of levels (mesh, extruder, mesh group, scene, limiting extruder) that define a key; every listed text of every enumeration; symbolic numbers up to 1000 inside scalars, lists, polygons, matrices and flow graphs in the listed layouts
//@ assume: the conversion between the text of a number and its value by the C library is exact (numbers appear in the text as opaque tokens); symbolic numbers are multiples of 1/1024 where their conversion to micron is compared
//@ run: inherit quick=60 thorough=100
//@ run: scalar quick=60 thorough=200
//@ run: enums quick=40 thorough=100
//@ run: lists quick=60 thorough=200
//@ run: flowtemp quick=60 thorough=300 ideal=1
//@ run: angles quick=40 thorough=200
#define APP_RESOLVER
#include <cura-formulae-engine/eval.h>
#include "app.h"
#include "settings/EnumSettings.h"
#include "settings/FlowTempGraph.h"
#include "settings/Settings.h"
#include "settings/types/Duration.h"
#include "settings/types/LayerIndex.h"
#include "settings/types/Ratio.h"
#include "settings/types/Temperature.h"
#include "utils/Matrix4x3D.h"
#include "geometry/Shape.h"
#include "geometry/Polygon.h"
using namespace cura;
SX_HARNESS(inherit, "a setting comes from the nearest level that defines it, an object's before the limiting extruder's before the parent's") {
    Slice& sl = appSetup(2); Scene& sc = sl.scene; Settings mesh; Settings& g = sc.mesh_groups[0].settings; Settings& e1 = sc.extruders[1].settings_; Settings& e0 = sc.extruders[0].settings_;
    int who = (int)sx_concrete(sx_int("parent_of_mesh", 0, 1)); mesh.setParent(who ? &e0 : &g); bool dm = sx_concrete(sx_int("mesh", 0, 1)), dg = sx_concrete(sx_int("group", 0, 1)), de0 = sx_concrete(sx_int("e0", 0, 1)), de1 = sx_concrete(sx_int("e1", 0, 1)), ds = sx_concrete(sx_int("scene", 0, 1)), lim = sx_concrete(sx_int("limited", 0, 1));
    if (dm) mesh.add("k", "mesh"); if (dg) g.add("k", "group"); if (de0) e0.add("k", "e0"); if (de1) e1.add("k", "e1"); if (ds) sc.settings.add("k", "scene"); if (lim) sc.limit_to_extruder.emplace("k", &sc.extruders[1]); g.setParent(&sc.settings);
    bool up = who ? de0 : dg; const char* upn = who ? "e0" : "group"; std::string want = dm ? "mesh" : lim ? (de1 ? "e1" : ds ? "scene" : "") : up ? upn : ds ? "scene" : "";
    if (!want.empty()) { std::string got = mesh.get<std::string>("k"); sx_assert(got == want, "the value comes from the documented level"); } if (!lim) sx_assert(mesh.has("k", true) == !want.empty(), "a setting is present exactly if some level defines it"); sx_assert(mesh.has("k", false) == dm, "without parent lookup only the own level counts");
    mesh.add("k", "first"); mesh.add("k", "second"); sx_assert(mesh.get<std::string>("k") == "second", "a later value replaces an earlier one"); mesh.remove("k"); sx_assert(!mesh.has("k", false), "a removed value is gone"); sx_reach("end");
}
SX_HARNESS(scalar, "numbers are read in the documented units") {
    Slice& sl = appSetup(3); Settings& s = sl.scene.settings; int64_t n = sx_int("n", -1000 * 1024, 1000 * 1024); double v = (double)n / 1024.0; s.add("k", sx_numstr(v)); sx_assert(s.get<double>("k") == v, "a number is read as it is"); int64_t c = s.get<coord_t>("k"); int64_t d = c * 1024 - n * 1000; sx_observe("c", c);
    sx_assert(sx_and(d <= 512, d >= -512), "millimetres become the nearest micron"); sx_assert((double)s.get<Temperature>("k") == v && (double)s.get<Velocity>("k") == v && (double)s.get<Acceleration>("k") == v && (double)s.get<Duration>("k") == (v < 0 ? 0.0 : v), "temperatures, speeds and times are read as they are, a negative duration as none"); double r = (double)s.get<Ratio>("k"); sx_assert(r == v / 100.0, "percentages become ratios");
    int64_t i = sx_int("i", -5, 1000); s.add("i", sx_numstr((double)i)); sx_assert(s.get<LayerIndex>("i") == i - 1, "layer numbers start at one for the user"); sx_assert(s.get<int>("i") == i, "integers"); if (i >= 0) sx_assert((int64_t)s.get<size_t>("i") == i, "sizes"); sx_assert(s.get<bool>("i") == (i != 0), "a number other than zero is true");
    static const char* T[9] = { "true", "True", "yes", "on", "false", "False", "no", "off", "" }; int t = (int)sx_concrete(sx_int("text", 0, 8)); s.add("b", T[t]); sx_assert(s.get<bool>("b") == (t < 4), "truth values"); int e = (int)sx_concrete(sx_int("extruder", -1, 2)), own = (int)sx_concrete(sx_int("own", 0, 2)); s.add("extruder_nr", std::to_string(own)); s.add("x", std::to_string(e)); ExtruderTrain& tr = s.get<ExtruderTrain&>("x"); sx_assert(tr.extruder_nr_ == (size_t)(e < 0 ? own : e), "extruder -1 means the object's own extruder"); auto all = s.get<std::vector<ExtruderTrain*>>("x"); sx_assert(e < 0 ? all.size() == 3 : all.size() == 1 && all[0]->extruder_nr_ == (size_t)e, "extruder -1 means all extruders in a list of extruders"); sx_reach("end");
}
template<class E> static void en(const char* what, std::initializer_list<std::pair<const char*, E>> l, E dflt, int pick) { Settings s; int k = 0; for (auto& p : l) { if (k++ != pick) continue; s.add("k", p.first); sx_assert(s.get<E>("k") == p.second, what); } if (pick == 40) { s.add("k", "nonsense"); sx_assert(s.get<E>("k") == dflt, "an unknown text gives the documented default"); } }
SX_HARNESS(enums, "every text of every enumeration gives its value") {
    appSetup(1); int p = (int)sx_concrete(sx_int("pick", 0, 40)); sx_assume(sx_or(p < 20, p == 40)); const char* w = "the value named by the text";
    en<EGCodeFlavor>(w, { { "Marlin", EGCodeFlavor::MARLIN }, { "Griffin", EGCodeFlavor::GRIFFIN }, { "Cheetah", EGCodeFlavor::CHEETAH }, { "UltiGCode", EGCodeFlavor::ULTIGCODE }, { "Makerbot", EGCodeFlavor::MAKERBOT }, { "BFB", EGCodeFlavor::BFB }, { "MACH3", EGCodeFlavor::MACH3 }, { "RepRap (Volumetric)", EGCodeFlavor::MARLIN_VOLUMATRIC }, { "Repetier", EGCodeFlavor::REPETIER }, { "RepRap (RepRap)", EGCodeFlavor::REPRAP } }, EGCodeFlavor::MARLIN, p);
    en<EFillMethod>(w, { { "none", EFillMethod::NONE }, { "lines", EFillMethod::LINES }, { "grid", EFillMethod::GRID }, { "cubic", EFillMethod::CUBIC }, { "cubicsubdiv", EFillMethod::CUBICSUBDIV }, { "tetrahedral", EFillMethod::TETRAHEDRAL }, { "quarter_cubic", EFillMethod::QUARTER_CUBIC }, { "triangles", EFillMethod::TRIANGLES }, { "trihexagon", EFillMethod::TRIHEXAGON }, { "concentric", EFillMethod::CONCENTRIC }, { "zigzag", EFillMethod::ZIG_ZAG }, { "cross", EFillMethod::CROSS }, { "cross_3d", EFillMethod::CROSS_3D }, { "gyroid", EFillMethod::GYROID }, { "lightning", EFillMethod::LIGHTNING }, { "honeycomb", EFillMethod::HONEYCOMB }, { "octagon", EFillMethod::OCTAGON } }, EFillMethod::NONE, p);
    en<EPlatformAdhesion>(w, { { "skirt", EPlatformAdhesion::SKIRT }, { "brim", EPlatformAdhesion::BRIM }, { "raft", EPlatformAdhesion::RAFT }, { "none", EPlatformAdhesion::NONE } }, EPlatformAdhesion::SKIRT, p); en<ESupportType>(w, { { "none", ESupportType::NONE }, { "everywhere", ESupportType::EVERYWHERE }, { "buildplate", ESupportType::PLATFORM_ONLY } }, ESupportType::NONE, p); en<ESupportStructure>(w, { { "normal", ESupportStructure::NORMAL }, { "tree", ESupportStructure::TREE } }, ESupportStructure::NORMAL, p);
    en<EZSeamType>(w, { { "shortest", EZSeamType::SHORTEST }, { "random", EZSeamType::RANDOM }, { "back", EZSeamType::USER_SPECIFIED }, { "sharpest_corner", EZSeamType::SHARPEST_CORNER } }, EZSeamType::SHORTEST, p); en<EZSeamCornerPrefType>(w, { { "z_seam_corner_inner", EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER }, { "z_seam_corner_outer", EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_OUTER }, { "z_seam_corner_any", EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_ANY }, { "z_seam_corner_weighted", EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_WEIGHTED } }, EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER, p);
    en<ESurfaceMode>(w, { { "normal", ESurfaceMode::NORMAL }, { "surface", ESurfaceMode::SURFACE }, { "both", ESurfaceMode::BOTH } }, ESurfaceMode::NORMAL, p); en<FillPerimeterGapMode>(w, { { "nowhere", FillPerimeterGapMode::NOWHERE }, { "everywhere", FillPerimeterGapMode::EVERYWHERE } }, FillPerimeterGapMode::NOWHERE, p); en<BuildPlateShape>(w, { { "rectangular", BuildPlateShape::RECTANGULAR }, { "elliptic", BuildPlateShape::ELLIPTIC } }, BuildPlateShape::RECTANGULAR, p);
    en<CombingMode>(w, { { "all", CombingMode::ALL }, { "off", CombingMode::OFF }, { "noskin", CombingMode::NO_SKIN }, { "no_outer_surfaces", CombingMode::NO_OUTER_SURFACES }, { "infill", CombingMode::INFILL } }, CombingMode::ALL, p); en<SupportDistPriority>(w, { { "xy_overrides_z", SupportDistPriority::XY_OVERRIDES_Z }, { "z_overrides_xy", SupportDistPriority::Z_OVERRIDES_XY } }, SupportDistPriority::XY_OVERRIDES_Z, p); en<SlicingTolerance>(w, { { "middle", SlicingTolerance::MIDDLE }, { "inclusive", SlicingTolerance::INCLUSIVE }, { "exclusive", SlicingTolerance::EXCLUSIVE } }, SlicingTolerance::MIDDLE, p);
    en<InsetDirection>(w, { { "inside_out", InsetDirection::INSIDE_OUT }, { "outside_in", InsetDirection::OUTSIDE_IN } }, InsetDirection::INSIDE_OUT, p); en<PrimeTowerMode>(w, { { "interleaved", PrimeTowerMode::INTERLEAVED }, { "normal", PrimeTowerMode::NORMAL } }, PrimeTowerMode::NORMAL, p); en<BrimLocation>(w, { { "everywhere", BrimLocation::EVERYWHERE }, { "inside", BrimLocation::INSIDE }, { "outside", BrimLocation::OUTSIDE } }, BrimLocation::OUTSIDE, p); en<CoolDuringExtruderSwitch>(w, { { "unchanged", CoolDuringExtruderSwitch::UNCHANGED }, { "all_fans", CoolDuringExtruderSwitch::ALL_FANS }, { "only_last_extruder", CoolDuringExtruderSwitch::ONLY_LAST_EXTRUDER } }, CoolDuringExtruderSwitch::UNCHANGED, p);
    en<DraftShieldHeightLimitation>(w, { { "full", DraftShieldHeightLimitation::FULL }, { "limited", DraftShieldHeightLimitation::LIMITED } }, DraftShieldHeightLimitation::FULL, p); sx_reach("end");
}
SX_HARNESS(lists, "lists, polygons and matrices are read element by element") {
    Slice& sl = appSetup(1); Settings& s = sl.scene.settings; int64_t n[9]; double v[9]; for (int i = 0; i < 9; i++) { n[i] = sx_int(hx_n("n", i).c_str(), -1000, 1000); v[i] = (double)n[i] / 8.0; } auto T = [&](int i) { return std::string(sx_numstr(v[i])); };
    int len = (int)sx_concrete(sx_int("len", 0, 4)), ws = (int)sx_concrete(sx_int("spaces", 0, 1)); std::string sp = ws ? " " : "", t = "["; 
    t = "[" + sp; for (int r = 0; r < 3; r++) { t += std::string(r ? "," + sp : "") + "[" + sp; for (int c = 0; c < 3; c++) t += (c ? sp + "," + sp : "") + T(3 * r + c); t += sp + "]"; } s.add("m", t + sp + "]"); Matrix4x3D m = s.get<Matrix4x3D>("m"); bool eq = true; for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) eq = sx_and(eq, m.m[c][r] == v[3 * r + c]); sx_assert(eq, "a matrix is read row by row"); s.add("m", "[[1,2],[3,4]]"); Matrix4x3D u = s.get<Matrix4x3D>("m"); sx_assert(u.m[0][0] == 1 && u.m[0][1] == 0 && u.m[1][0] == 0 && u.m[2][2] == 1, "a malformed matrix is the identity");
    t = "["; for (int i = 0; i < len; i++) t += std::string(i ? "," + sp : "") + "[" + sp + T(2 * i) + "," + sp + T(2 * i + 1) + "]"; t += "]"; s.add("p", "[" + t + (ws ? ", " : ",") + "[[1,2],[3,4],[5,6]]]"); Shape p = s.get<Shape>("p"); if (len) { sx_assert(p.size() == 2 && (int)p[0].size() == len && p[1].size() == 3, "the number of polygons and vertices"); for (int i = 0; i < len; i++) { int64_t dx = p[0][i].X * 8 - n[2 * i] * 1000, dy = p[0][i].Y * 8 - n[2 * i + 1] * 1000; sx_assert(sx_and(dx >= -4, dx <= 4), "vertices are read in millimetres"); sx_assert(sx_and(dy >= -4, dy <= 4), "X is read before Y"); } sx_assert(p[1][2].X == 5000 && p[1][2].Y == 6000, "later polygons too"); }
    s.add("g", t); FlowTempGraph f = s.get<FlowTempGraph>("g"); sx_assert((int)f.data_.size() == len, "every pair of a graph is read"); bool ge = true; for (int i = 0; i < len; i++) ge = sx_and(ge, sx_and(f.data_[i].flow_ == v[2 * i], (double)f.data_[i].temp_ == v[2 * i + 1])); sx_assert(ge, "a graph is read as pairs of flow and temperature");
    s.add("v", len == 0 ? "" : len == 1 ? "[45]" : len == 2 ? "[ -30.5, 60 ]" : len == 3 ? "[0,45,+90" : "[1,2.25,3,-4]"); auto d = s.get<std::vector<double>>("v"); auto ang = s.get<std::vector<AngleDegrees>>("v"); auto iv = s.get<std::vector<int>>("v"); auto rt = s.get<std::vector<Ratio>>("v"); sx_assert((int)d.size() == len && (int)ang.size() == len && (int)iv.size() == len && (int)rt.size() == len, "every element of a list is read"); static const double W[5][4] = { {}, { 45 }, { -30.5, 60 }, { 0, 45, 90 }, { 1, 2.25, 3, -4 } }; for (int i = 0; i < len; i++) sx_assert(d[i] == W[len][i] && (double)rt[i] == W[len][i] / 100.0 && (double)ang[i] == (W[len][i] < 0 ? W[len][i] + 360 : W[len][i]) && iv[i] == (int)std::lround(W[len][i]), "list elements in their units"); sx_reach("end");
}
SX_HARNESS(flowtemp, "the temperature for a flow interpolates the graph and is clamped at its ends") {
    FlowTempGraph g; int n = (int)sx_concrete(sx_int("n", 0, 3)); static const double F[3] = { 1, 2.5, 6.5 }; double t[3]; for (int i = 0; i < n; i++) { t[i] = sx_double(hx_n("t", i).c_str(), 150, 300); g.data_.emplace_back(F[i], t[i]); } double f = sx_double("flow", 0, 10); bool dep = sx_concrete(sx_int("dependent", 0, 1)); double got = g.getTemp(f, Temperature(200.0), dep); sx_observe_d("temp", got);
    double want = 200; if (dep && n) { want = t[0]; if (n > 1 && f >= F[0]) { want = t[n - 1]; for (int i = n - 1; i > 0; i--) if (f <= F[i]) want = t[i - 1] + (t[i] - t[i - 1]) * (f - F[i - 1]) / (F[i] - F[i - 1]); } } sx_assert(sx_and(got - want <= 1e-6, want - got <= 1e-6), "the temperature is the graph's at that flow"); sx_reach("end");
}
SX_HARNESS(angles, "angles are kept within one turn") {
    double a = 0.25 * (double)sx_int("a", -3000, 3000), b = 0.25 * (double)sx_int("b", -1440, 1440); AngleDegrees x(a), y(b); auto turn = [](double got, double want) { double d = got - want; bool m = false; for (int k = -9; k <= 9; k++) m = sx_or(m, d == 360.0 * k); return sx_and(m, sx_and(got >= 0, got < 360)); };
    sx_assert(turn((double)x, a), "an angle is reduced to 0..360 by whole turns"); AngleDegrees s = x + y, m = x - y; sx_assert(turn((double)s, a + b), "the sum of two angles"); sx_assert(turn((double)m, a - b), "the difference of two angles"); AngleDegrees c = x; c += y; sx_assert((double)c == (double)s, "adding in place"); c = x; c -= y; sx_assert((double)c == (double)m, "subtracting in place");
    int l = (int)sx_int("layer", -100, 100000); LayerIndex li(l); sx_assert(li + 1 == l + 1 && li - 2 == l - 2, "layer arithmetic"); LayerIndex k = li; k++; --k; sx_assert(k == li, "stepping"); sx_assert((li < 0) == (l < 0), "raft layers are below zero"); sx_reach("end");
}
