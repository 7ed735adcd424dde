//@ inc: stubs
//@ defs: -fno-access-control
//@ src: src/gcode_export/gcodeExport.cpp src/gcode_export/FixedGCodePart.cpp src/utils/AABB3D.cpp src/geometry/Point3LL.cpp src/settings/Settings.cpp src/ExtruderTrain.cpp
//@ bound: one z-hopped travel with retraction while still, rising, travelling (two segments) and priming while descending, at listed split ratios, hop heights to 5 mm and all amounts to 10 mm symbolic, in absolute, relative, volumetric and relative volumetric mode; wipe with 0 to 2 (thorough 3) strokes, symbolic positions, retraction and hop on and off, before and after a retraction
//@ assume: numbers are printed exactly (their rounding to 5 decimals is C05); the time estimator is replaced by a stub (its own property)
//@ run: anti_ooze quick=150 thorough=900
//@ run: wipe quick=90 thorough=900
#include "gcode.h"
#include "WipeScriptConfig.h"
SX_HARNESS(anti_ooze, "retraction and priming spread over stand-still, z-hop and travel") {
    int mode = (int)sx_concrete(sx_int("mode", 0, 3)); bool rel = mode & 1, vol = mode & 2; GCodeExport g; setupScene(g, rel, vol, false, 0); g.setZ(300); Printer pr; pr.relative = rel; double k = vol ? 1.0 : areaOf(0);
    static const double RAT[3] = { 0, 0.25, 1 }; int r1 = (int)sx_concrete(sx_int("up", 0, 2)), r2 = (int)sx_concrete(sx_int("down", 0, 2)); if (!HX_T) sx_assume((r1 + mode) % 3 == r2 || r1 == r2);
    double still = sx_double("still", 0.1, 3), up = sx_double("rising", 0, 3), t1 = sx_double("travel1", 0, 2), t2 = sx_double("travel2", 0, 1), down = sx_double("descending", 0.001, 3); int64_t hop = sx_int("hop", 4, 5000);
    double a0 = still, a1 = a0 + up, a2 = a1 + t1, a3 = a2 - t2, flow = 0.1;
    sx_assume(sx_and(sx_or(up == 0, up >= 1e-3), sx_and(sx_or(t1 == 0, t1 >= 1e-3), sx_or(t2 == 0, t2 >= 1e-3)))); sx_assume(down <= a3 - 1e-3);
    auto at = [&](int64_t x, int64_t y, int64_t z, double ret, const char* what) { sx_assert(!pr.bad, "every line is a well-formed command"); sx_assert(sx_and(sx_and(pr.x == x, pr.y == y), sx_and(pr.z - z <= 1, z - pr.z <= 1)), (std::string("the head is at the requested position after ") + what).c_str()); sx_assert(near(pr.filament[0] * k, 1.0 - ret * areaOf(0), 1e-3), (std::string("the retraction is the requested one after ") + what).c_str()); };
    auto run = [&] { pr.run(g.gcode_parts_.back()->str()); };
    g.writeTravel(Point2LL(1000, 2000), Velocity{ 100.0 }); g.writeExtrusion(Point2LL(11000, 2000), Velocity{ 50.0 }, flow, PrintFeatureType::OuterWall); run(); at(11000, 2000, 300, 0, "the line");
    RetractionConfig c{}; c.distance = 20; c.speed = 25.0; c.primeSpeed = 20.0; c.retraction_extrusion_window = 0; c.retraction_count_max = 100; g.writeRetraction(c, false, false, a0); run(); at(11000, 2000, 300, a0, "the retraction");
    g.writeZhopStart(hop, Velocity{ 10.0 }, a1, Ratio{ RAT[r1] }); run(); at(11000, 2000, 300 + hop, a1, "rising");
    if (r1 == 1) { int64_t part = 300 + hop / 4; bool reached = false; for (auto& s : pr.steps) reached = sx_or(reached, sx_and(sx_and(s.z - part <= 1, part - s.z <= 1), near(s.e * k, 1.0 - a1 * areaOf(0), 1e-3))); sx_assert(reached, "the retraction is complete at the requested part of the hop"); }
    g.writeTravel(Point3LL(21000, 2000, 300), Velocity{ 100.0 }, a2); run(); at(21000, 2000, 300 + hop, a2, "the first travel segment");
    g.writeTravel(Point3LL(21000, 9000, 300), Velocity{ 100.0 }, a3); run(); at(21000, 9000, 300 + hop, a3, "the second travel segment");
    g.setZHopPrimeLeftover(ZHopAntiOozing{ down, Ratio{ RAT[r2] } }); g.writeExtrusion(Point2LL(31000, 9000), Velocity{ 50.0 }, flow, PrintFeatureType::OuterWall); run(); sx_assert(!pr.bad, "every line is a well-formed command");
    // the descent ends at layer height with the requested retraction left
    bool atLayer = false, split = false; for (auto& s : pr.steps) { atLayer = sx_or(atLayer, sx_and(sx_and(s.x == 21000, s.z == 300), near(s.e * k, 1.0 - down * areaOf(0), 1e-3))); int64_t part = 300 + hop / 4; split = sx_or(split, sx_and(sx_and(s.x == 21000, sx_and(s.z - part <= 1, part - s.z <= 1)), near(s.e * k, 1.0 - a3 * areaOf(0), 1e-3))); }
    sx_assert(atLayer, "the hop ends at the height of the layer with the requested amount left to prime"); if (r2 == 1) sx_assert(split, "priming starts at the requested part of the descent");
    sx_assert(pr.startZ == 300, "the line starts at the height of the layer"); sx_assert(near(pr.startFilament * k, 1.0, 1e-3), "the line starts unretracted"); sx_assert(sx_and(sx_and(pr.x == 31000, pr.y == 9000), pr.z == 300), "the line ends at its end point"); sx_assert(near(pr.filament[0] * k, 2.0, 1e-3), "the line deposits its material");
    g.writeTravel(Point2LL(1000, 2000), Velocity{ 100.0 }); run(); sx_assert(pr.z == 300, "no hop is left"); sx_reach("end");
}
SX_HARNESS(wipe, "nozzle wipe") {
    bool rel = sx_concrete(sx_int("rel", 0, 1)) != 0, pre = sx_concrete(sx_int("pre", 0, 1)) != 0; GCodeExport g; setupScene(g, rel, false, false, 0); g.setZ(300); Printer pr; pr.relative = rel; double k = areaOf(0);
    WipeScriptConfig w{}; w.retraction_enable = sx_concrete(sx_int("retract", 0, 1)) != 0; w.hop_enable = sx_concrete(sx_int("hop", 0, 1)) != 0; w.hop_amount = sx_int("hopz", 1, 3000); w.hop_speed = Velocity{ 10.0 }; w.brush_pos_x = sx_int("brush", -200000, 200000); w.repeat_count = sx_concrete(sx_int("strokes", 0, HX_B(2, 3))); w.move_distance = sx_int("stroke", 1, 20000); w.move_speed = Velocity{ 120.0 }; w.pause = (double)sx_concrete(sx_int("pause", 0, 1));
    RetractionConfig& c = w.retraction_config; c.distance = sx_double("dist", 0.1, 5); c.speed = 25.0; c.primeSpeed = 20.0; c.prime_volume = sx_double("pv", 0, 2); c.retraction_extrusion_window = 0; c.retraction_count_max = 100; double d0 = 6;
    auto run = [&] { pr.run(g.gcode_parts_.back()->str()); };
    g.writeTravel(Point2LL(1000, 2000), Velocity{ 100.0 }); g.writeExtrusion(Point2LL(11000, 2000), Velocity{ 50.0 }, 0.1, PrintFeatureType::OuterWall); double dep = 1;
    if (pre) { RetractionConfig p = c; p.distance = d0; p.prime_volume = 0; g.writeRetraction(p); } run();
    g.setZ(500); g.insertWipeScript(w); run(); sx_assert(!pr.bad, "every line is a well-formed command");
    sx_assert(sx_and(sx_and(pr.x == 11000, pr.y == 2000), pr.z <= 500), "the head returns to where it was"); sx_assert(pr.other["G4"] == (w.pause > 0), "the pause is written when there is one");
    double ret = pre && !w.retraction_enable ? d0 : 0; if (w.retraction_enable) dep += c.prime_volume; sx_assert(near(pr.filament[0] * k, dep - ret * k, 1e-3), "after the wipe the filament is back, with the requested extra prime");
    int strokes = 0; bool atBrush = false; int64_t lo = 1LL << 60, hi = -(1LL << 60); double rmax = w.retraction_enable ? c.distance : ret; for (auto& s : pr.steps) if (s.xyz) { sx_assert(s.e * k <= 1.0 - rmax * k + 1e-3 || (s.x == 11000 && s.y == 2000), "the head moves over the brush with the requested retraction"); bool wiping = s.x != 11000; if (wiping) { sx_assert(s.y == 2000, "strokes run along X"); sx_assert(s.z == 500 + (w.hop_enable ? w.hop_amount : 0), "strokes run at layer height plus hop"); lo = hx_min(lo, s.x); hi = hx_max(hi, s.x); strokes++; } atBrush = sx_or(atBrush, s.x == w.brush_pos_x); }
    sx_assert(sx_or(atBrush, w.brush_pos_x == 11000), "the wipe starts at the brush"); if (w.repeat_count && sx_and(w.brush_pos_x != 11000, w.brush_pos_x + w.move_distance != 11000)) { sx_assert(sx_and(lo == w.brush_pos_x, hi == w.brush_pos_x + w.move_distance), "strokes span the stroke length from the brush position"); sx_assert(strokes == 1 + (int)w.repeat_count, "the requested number of strokes is made"); }
    g.writeExtrusion(Point2LL(21000, 2000), Velocity{ 50.0 }, 0.1, PrintFeatureType::OuterWall); run(); dep += 1; sx_assert(near(pr.filament[0] * k, dep, 1e-3), "the next line deposits its material"); sx_assert(pr.z == 500, "the next line is at the height of its layer"); sx_reach("end");
}
