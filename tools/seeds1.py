seed("ceil-both-negative", "C01", [("include/utils/math.h", "((dividend > 0 && divisor > 0) || (dividend < 0 && divisor < 0)))\n    {\n        quotient += 1;", "((dividend > 0 && divisor > 0) || (dividend < -divisor && divisor < -1)))\n    {\n        quotient += 1;")],
 "a negative dividend and divisor of which the dividend is nearer to zero than the divisor is", "rounding up a quotient of two negatives below one gives 0 instead of 1",
 '#include "utils/math.h"\nusing namespace cura;\nint main() { for (long a = -50; a <= 50; a++) for (long b = -9; b <= 9; b++) if (b) { long q = ceil_divide_signed(a, b); if (!((b > 0 ? q * b >= a && (q - 1) * b < a : q * b <= a && (q - 1) * b > a))) return 1; } return 0; }')
seed("connection-tie", "C02", [("src/utils/linearAlg2D.cpp", "    coord_t a2_on_b_dist2 = vSize2(a2_on_b - a2);", "    coord_t a2_on_b_dist2 = vSize2(a2_on_b - a1);")],
 "the second end point of the first segment is the closest of the four, the first one is not", "the closest connection is reported between the wrong points",
 '#include "utils/linearAlg2D.h"\nusing namespace cura;\nint main() { for (int d = 1; d < 400; d += 7) for (int o = -300; o <= 300; o += 50) { auto r = LinearAlg2D::getClosestConnection(Point2LL(o, 5000), Point2LL(o, d), Point2LL(-1000, 0), Point2LL(1000, 0)); if (vSize2(r.first - r.second) != (long)d * d) return 1; auto q = LinearAlg2D::getClosestConnection(Point2LL(o, d), Point2LL(o, 5000), Point2LL(-1000, 0), Point2LL(1000, 0)); if (vSize2(q.first - q.second) != (long)d * d) return 1; } return 0; }')
seed("beyond-short", "C02", [("include/utils/linearAlg2D.h", "        if (ax_size > ac_size)\n        { // b is 'after' segment ac", "        if (ax_size > ac_size + (ac_size >> 4))\n        { // b is 'after' segment ac")],
 "a point that projects just beyond the far end of a segment of at least 16 micron", "such a point is measured to the extended line, not to the end point",
 '#include "utils/linearAlg2D.h"\nusing namespace cura;\nint main() { for (int x = 1001; x < 1100; x += 3) for (int y = 1; y < 20; y += 5) { int16_t s = 5; long d = LinearAlg2D::getDist2FromLineSegment(Point2LL(0, 0), Point2LL(x, y), Point2LL(1000, 0), &s); long w = long(x - 1000) * (x - 1000) + long(y) * y; if (x > 1003 && (s != 1 || d != w)) return 1; } return 0; }')
seed("corner-reflex", "C03", [("src/utils/linearAlg2D.cpp", "@CORNER", "")], "", "", "")
seed("gcode-switch-prime", "C06", [("src/gcode_export/gcodeExport.cpp", "@", "")], "", "", "")
seeds[:] = [s for s in seeds if s["needs"]]
seed("time-junction-prev", "C07", [("src/timeEstimate.cpp", "        vmax_junction = std::min(previous_nominal_feedrate, Velocity{ vmax_junction * vmax_junction_factor });", "        vmax_junction = Velocity{ vmax_junction * vmax_junction_factor };")],
 "a slow move followed by a faster one with a speed step within the jerk limit", "the second move is assumed to start faster than the first one ever moves, so its acceleration time is missing",
 '#define APP_RESOLVER\n#include <cura-formulae-engine/eval.h>\n#include "app.h"\n#include "timeEstimate.h"\n#include "settings/Settings.h"\nusing namespace cura;\nint main() { Settings s; for (const char* a : { "x", "y", "z", "e" }) { s.add(std::string("machine_max_feedrate_") + a, "500"); s.add(std::string("machine_max_acceleration_") + a, "1000"); } s.add("machine_max_jerk_xy", "20"); s.add("machine_max_jerk_z", "20"); s.add("machine_max_jerk_e", "20"); s.add("machine_minimum_feedrate", "0"); s.add("machine_acceleration", "1000"); TimeEstimateCalculator t; t.setFirmwareDefaults(s); typedef TimeEstimateCalculator::Position P; t.setPosition(P(0, 0, 0, 0)); t.plan(P(10, 0, 0, 0), Velocity{ 10.0 }, PrintFeatureType::Skin); t.plan(P(20, 0, 0, 0), Velocity{ 25.0 }, PrintFeatureType::Infill); auto r = t.calculate(); double g = (double)r[(size_t)PrintFeatureType::Infill]; double v = 25, vi = 10, vf = 0.05, acc = (v * v - vi * vi) / 2000, dec = (v * v - vf * vf) / 2000; double w = (v - vi) / 1000 + (v - vf) / 1000 + (10 - acc - dec) / v; printf("%f %f\\n", g, w); return std::fabs(g - w) > 1e-3; }',
 srcs=["src/timeEstimate.cpp", "src/settings/Settings.cpp", "src/ExtruderTrain.cpp"], stubs=True)
seed("grid-nearby-trunc", "C08", [("include/utils/SparseGrid.h", "        if (dist2 < best_dist2)\n        {\n            found = true;", "        if (dist2 < best_dist2 || ! found)\n        {\n            found = true;")],
 "a nearest-element query whose radius reaches into a cell that only contains elements outside the radius", "an element beyond the radius is returned as the nearest one",
 '#include "utils/SparsePointGridInclusive.h"\nusing namespace cura;\nint main() { SparsePointGridInclusive<int> g(100); g.insert(Point2LL(50, 50), 1); SparsePointGridInclusive<int>::Elem e; if (g.getNearest(Point2LL(10, 10), 20, e)) return 1; return !g.getNearest(Point2LL(45, 45), 20, e); }')
seed("mst-update", "C09", [("src/utils/MinimumSpanningTree.cpp", "                smallest_distance[point_and_distance.first] = new_distance;\n", "                smallest_distance[point_and_distance.first] = std::max(new_distance, vSize2(*closest_point - other_end));\n")],
 "a point that comes closer to the tree than the length of the edge added last", "a longer edge is chosen over a shorter one",
 '#include "utils/MinimumSpanningTree.h"\nusing namespace cura;\nint main() { unsigned r = 1; for (int t = 0; t < 4000; t++) { std::vector<Point2LL> v; while (v.size() < 5) { r = r * 1103515245 + 12345; Point2LL p((r >> 16) % 40, (r >> 8) % 37); bool dup = false; for (auto& q : v) dup |= q == p; if (!dup) v.push_back(p); } long len = 0; MinimumSpanningTree m(v); for (auto& p : v) for (auto& q : m.adjacentNodes(p)) len += vSize2(p - q); std::vector<char> in(5, 0); in[0] = 1; long best = 0; for (int k = 1; k < 5; k++) { long d = 1L << 60; int b = 0; for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) if (in[i] && !in[j] && vSize2(v[i] - v[j]) < d) { d = vSize2(v[i] - v[j]); b = j; } in[b] = 1; best += d; } if (len != 2 * best) return 1; } return 0; }')
seed("setting-limit-order", "C10", [("src/settings/Settings.cpp", "        return limit_to_extruder.at(key)->settings_.getWithoutLimiting(key);", "        return parent && parent->has(key, false) ? parent->get<std::string>(key) : limit_to_extruder.at(key)->settings_.getWithoutLimiting(key);")],
 "an object setting limited to an extruder while the parent also defines it", "the parent's value is used instead of the limiting extruder's",
 '#define APP_RESOLVER\n#include <cura-formulae-engine/eval.h>\n#include "app.h"\n#include "settings/Settings.h"\nusing namespace cura;\nint main() { Scene& sc = appSetup(2).scene; Settings mesh; Settings& g = sc.mesh_groups[0].settings; mesh.setParent(&g); g.add("k", "1"); sc.extruders[1].settings_.add("k", "2"); sc.limit_to_extruder.emplace("k", &sc.extruders[1]); return mesh.get<std::string>("k") != "2"; }',
 srcs=["src/settings/Settings.cpp", "src/ExtruderTrain.cpp"], stubs=True)
