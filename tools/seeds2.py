seed("corner-third", "C03", [("src/utils/linearAlg2D.cpp", "        return (project_c_parallel < project_a_parallel) == (project_a_perpendicular > 0);", "        return (project_c_parallel < project_a_parallel) == (project_c_perpendicular > 0);")],
 "a query point exactly opposite to one of the two legs of the corner, the other leg on its left", "a point straight behind a leg of a corner is put on the wrong side",
 '#include "utils/linearAlg2D.h"\nusing namespace cura;\nint main() { (void)0; for (int k = 1; k < 50; k++) { if (LinearAlg2D::isInsideCorner(Point2LL(-100, 0), Point2LL(0, 0), Point2LL(0, 100), Point2LL(70, 0)) ) {} }\n auto ref = [](double ax, double ay, double cx, double cy, double qx, double qy) { double a = std::atan2(ay, ax), c = std::atan2(cy, cx), q = std::atan2(qy, qx); auto n = [](double v) { while (v < 0) v += 2 * M_PI; return v; }; return n(q - c) < n(a - c); };\n for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) for (int q = 0; q < 8; q++) if (i != j && q != i && q != j) { int X[8] = { 100, 100, 0, -100, -100, -100, 0, 100 }, Y[8] = { 0, 100, 100, 100, 0, -100, -100, -100 }; if (LinearAlg2D::isInsideCorner(Point2LL(X[i], Y[i]), Point2LL(0, 0), Point2LL(X[j], Y[j]), Point2LL(X[q], Y[q])) != ref(X[i], Y[i], X[j], Y[j], X[q], Y[q])) return 1; } return 0; }')
seed("segment-end", "C04", [("src/utils/linearAlg2D.cpp", "    if (line_y == p2.Y)\n    {\n        return p2.X;\n    }\n", "    if (line_y == p2.Y && p1.Y < p2.Y)\n    {\n        return p2.X;\n    }\n"), ("src/utils/linearAlg2D.cpp", "    return std::llrint((line_y - coeff_b) / coeff_a);", "    return static_cast<coord_t>((line_y - coeff_b) / coeff_a + 0.5);")],
 "an intersection with a negative X coordinate", "the crossing of an infill scan line with an outline at negative X lies a micron off",
 '#include "utils/linearAlg2D.h"\nusing namespace cura;\nint main() { for (int y = -90; y < 90; y++) for (int dx = -50; dx <= 50; dx += 7) { auto r = LinearAlg2D::lineHorizontalLineIntersection(Point2LL(-400, -100), Point2LL(-400 + dx, 100), y); double w = -400 + dx * (y + 100) / 200.0; if (!r || std::fabs(*r - w) > 0.501) return 1; } return 0; }')
seed("mm-round", "C05", [("include/utils/string.h", "        for (int nulls = char_count - start; nulls < 3; nulls++)", "        for (int nulls = char_count - start - (start && char_count == 3 && buffer[2] == '0'); nulls < 3; nulls++)")],
 "a negative coordinate of two digits that ends in a zero", "the coordinate -0.050 is written as -0.005",
 '#include "utils/string.h"\n#include <sstream>\nusing namespace cura;\nint main() { for (int v = -3000; v <= 3000; v++) { std::ostringstream s; writeInt2mm(v, s); if (std::lround(std::stod(s.str()) * 1000) != v) return 1; } return 0; }')
GC = '''#define APP_RESOLVER
#include <cura-formulae-engine/eval.h>
#include "app.h"
#include "RetractionConfig.h"
#include "gcode_export/gcodeExport.h"
#include "gcode_export/GCodePart.h"
using namespace cura;
static void setup(GCodeExport& g, bool rel, bool vol, bool fw) {
    Slice& s = appSetup(2); auto& st = s.scene.settings; st.add("layer_height", "0.2"); st.add("speed_z_hop", "10"); st.add("retraction_enable", "true");
    for (const char* k : { "machine_extruder_prestart_code", "machine_extruder_start_code", "machine_extruder_end_code", "machine_name" }) st.add(k, "");
    for (const char* k : { "machine_extruder_start_code_duration", "machine_extruder_change_duration", "machine_extruder_end_code_duration", "machine_extruder_cooling_fan_number", "material_bed_temperature_layer_0", "material_bed_temperature" }) st.add(k, "0");
    for (const char* a : { "x", "y", "z", "e" }) { st.add(std::string("machine_max_feedrate_") + a, "500"); st.add(std::string("machine_max_acceleration_") + a, "1000"); }
    for (const char* k : { "machine_max_jerk_xy", "machine_max_jerk_z", "machine_max_jerk_e" }) st.add(k, "20");
    st.add("machine_minimum_feedrate", "0"); st.add("machine_acceleration", "1000");
    for (const char* k : { "ppr_enable", "machine_always_write_active_tool", "material_bed_temp_prepend" }) st.add(k, "false");
    st.add("machine_gcode_flavor", vol ? "RepRap (Volumetric)" : "RepRap (Marlin/Sprinter)"); st.add("machine_use_extruder_offset_to_offset_coords", "true"); st.add("relative_extrusion", rel ? "true" : "false"); st.add("machine_firmware_retract", fw ? "true" : "false"); st.add("retraction_prime_speed", "30"); st.add("machine_nozzle_offset_y", "0"); st.add("machine_nozzle_offset_x", "0"); st.add("material_diameter", "2.85");
    g.preSetup(0); g.setFlowRateExtrusionSettings(0, 0); g.setZ(300); }
struct Pr { double fil = 0, log = 0; bool rel = false; size_t pos = 0; int retr = 0;
    void run(const std::string& s) { while (pos < s.size()) { size_t e = s.find('\\n', pos); std::string l = s.substr(pos, e - pos); pos = e + 1; if (l.rfind("G10", 0) == 0) retr++; if (l.rfind("G92 E", 0) == 0) { log = 0; continue; } if (l.rfind("G0", 0) && l.rfind("G1 ", 0)) continue; size_t k = l.find(" E"); if (k == std::string::npos) continue; double v = std::stod(l.substr(k + 2)); if (rel) fil += v; else { fil += v - log; log = v; } } } };
static RetractionConfig rc(double d, double pv, double win = 0, size_t n = 100) { RetractionConfig c{}; c.distance = d; c.speed = 25.0; c.primeSpeed = 20.0; c.prime_volume = pv; c.retraction_extrusion_window = win; c.retraction_count_max = n; return c; }
'''
GS = ["src/gcode_export/gcodeExport.cpp", "src/gcode_export/FixedGCodePart.cpp", "src/utils/AABB3D.cpp", "src/geometry/Point3LL.cpp", "src/settings/Settings.cpp", "src/ExtruderTrain.cpp", "src/timeEstimate.cpp"]
seed("fw-prime-relative", "C06", [("src/gcode_export/gcodeExport.cpp", "            if (prime_volume != 0)\n            {", "            if (prime_volume != 0 && ! relative_extrusion_)\n            {")],
 "firmware retraction together with relative extrusion and a retraction that asks for extra priming", "the extra prime material is never fed",
 GC + "int main() { for (int rel = 0; rel < 2; rel++) { GCodeExport g; setup(g, rel, false, true); Pr p; p.rel = rel; g.writeTravel(Point2LL(1000, 1000), Velocity{ 100.0 }); g.writeRetraction(rc(5, 3)); g.writeTravel(Point2LL(5000, 1000), Velocity{ 100.0 }); g.writeExtrusion(Point2LL(15000, 1000), Velocity{ 50.0 }, 0.1, PrintFeatureType::OuterWall); p.run(g.gcode_parts_.back()->str()); double w = (3 + 1.0) / (M_PI * 1.425 * 1.425); if (std::fabs(p.fil - w) > 1e-3) return 1; } return 0; }", srcs=GS, stubs=True, flags="-fno-access-control")
seed("retract-count", "C06", [("src/gcode_export/gcodeExport.cpp", "        extruded_volume_at_previous_n_retractions.push_front(current_extruded_volume);\n", "        if (extruded_volume_at_previous_n_retractions.empty() || current_extruded_volume > extruded_volume_at_previous_n_retractions.front())\n        {\n            extruded_volume_at_previous_n_retractions.push_front(current_extruded_volume);\n        }\n")],
 "two retractions of different extent without extrusion in between", "a retraction is not counted, so more retractions than allowed happen within the extrusion window",
 GC + "int main() { GCodeExport g; setup(g, false, false, false); g.writeTravel(Point2LL(1000, 1000), Velocity{ 100.0 }); int n = 0; for (int i = 0; i < 6; i++) { size_t a = g.gcode_parts_.back()->str().size(); g.writeRetraction(rc(1 + i, 0, 10, 2)); n += g.gcode_parts_.back()->str().size() != a; } return n != 2; }", srcs=GS, stubs=True, flags="-fno-access-control")
seed("prime-after-reset", "C06", [("src/gcode_export/gcodeExport.cpp", "    extruder_attr_[current_extruder_].prime_volume_ = 0.0;\n\n    if (getCurrentExtrudedVolume() > 10000.0", "    extruder_attr_[current_extruder_].prime_volume_ = extruder_attr_[current_extruder_].machine_firmware_retract_ && ! relative_extrusion_ ? prime_volume - eToMm3(prime_volume_e * 0.5, 0) * 2 : 0.0;\n\n    if (getCurrentExtrudedVolume() > 10000.0")],
 "firmware retraction on the second extruder with another filament diameter than the first, and extra priming", "left-over priming is fed again later",
 GC + "int main() { GCodeExport g; setup(g, false, false, true); auto& s = *Application::getInstance().current_slice_; s.scene.extruders[1].settings_.add(\"material_diameter\", \"1.75\"); g.preSetup(0); g.setZ(300); Pr p; g.writeTravel(Point2LL(1000, 1000), Velocity{ 100.0 }); g.switchExtruder(1, rc(2, 0)); p.run(g.gcode_parts_.back()->str()); double f0 = p.fil; g.writeTravel(Point2LL(1000, 1000), Velocity{ 100.0 }); g.addExtraPrimeAmount(3); g.writeExtrusion(Point2LL(11000, 1000), Velocity{ 50.0 }, 0.1, PrintFeatureType::OuterWall); g.writeExtrusion(Point2LL(21000, 1000), Velocity{ 50.0 }, 0.1, PrintFeatureType::OuterWall); p.run(g.gcode_parts_.back()->str()); double w = 5.0 / (M_PI * 0.875 * 0.875); printf(\"%f %f\\n\", p.fil - f0, w); return std::fabs(p.fil - f0 - w) > 1e-3; }", srcs=GS, stubs=True, flags="-fno-access-control")
seed("box-expand-flat", "C09", [("src/utils/AABB3D.cpp", "    if (min_.x_ > max_.x_ || min_.y_ > max_.y_)\n", "    if (min_.x_ >= max_.x_ && min_.y_ >= max_.y_)\n")],
 "shrinking a box in XY by more than half its width but less than half its depth", "a box that was shrunk away stays with its minimum above its maximum",
 '#include "utils/AABB3D.h"\nusing namespace cura;\nint main() { AABB3D a(Point3LL(0, 0, 0), Point3LL(10, 100, 10)); a.expandXY(-20); AABB3D b(Point3LL(0, 0, 0), Point3LL(100, 10, 10)); b.expandXY(-20); AABB3D e; return !(a.min_ == e.min_ && a.max_ == e.max_ && b.min_ == e.min_ && b.max_ == e.max_); }', srcs=["src/utils/AABB3D.cpp"])
seed("near-cell-neg", "C08", [("src/utils/SquareGrid.cpp", "    const Point2LL max_loc(query_pt.X + radius, query_pt.Y + radius);", "    const Point2LL max_loc(query_pt.X + radius - (query_pt.X < 0), query_pt.Y + radius);")],
 "a query point with negative X whose radius ends exactly at a cell border", "elements at exactly the radius are missed",
 '#include "utils/SparsePointGridInclusive.h"\nusing namespace cura;\nint main() { for (int x = -60; x < 30; x++) for (int r = 1; r < 25; r++) for (int s = -1; s <= 1; s += 2) { SparsePointGridInclusive<int> g(10); g.insert(Point2LL(x + s * r, 5), 1); bool f = false; for (auto& v : g.getNearbyVals(Point2LL(x, 5), r)) f |= v == 1; if (!f) return 1; } return 0; }', srcs=["src/utils/SquareGrid.cpp"])
