//@ inc: stubs
//@ defs: -fno-access-control
//@ src: src/gcode_export/gcodeExport.cpp src/gcode_export/FixedGCodePart.cpp src/utils/AABB3D.cpp src/geometry/Point3LL.cpp src/settings/Settings.cpp src/ExtruderTrain.cpp
//@ bound: every history of 3 (thorough 4) operations out of travel, extrude, retract, z-hop, extra prime, extruder switch, on two extruders, in absolute, relative, volumetric, relative volumetric, firmware-retraction and relative firmware-retraction mode; flows 0 to 5 mm3/mm, retraction distances 0 to 10 mm, prime volumes 0 to 5 mm3, all real-valued and symbolic; line lengths 10, 30 or 4000 mm
//@ assume: numbers are printed exactly (their rounding to 5 decimals is C05); the firmware executes G0/G1/G10/G11/G92/M82/M83/T as documented; the time estimator is replaced by a stub (its own property)
//@ run: history quick=200 thorough=2400
//@ run: flow_compensation quick=60 thorough=600
//@ run: retraction_limit quick=60 thorough=600
//@ run: one_move quick=40 thorough=200
#include "gcode.h"
SX_HARNESS(history, "a sequence of operations executed by a virtual printer") {
    int mode = (int)sx_concrete(sx_int("mode", 0, 5)); bool rel = mode == 1 || mode == 3 || mode == 5, vol = mode == 2 || mode == 3, fw = mode >= 4;
    GCodeExport g; const int64_t off[2] = { 0, OFFX[mode] }; setupScene(g, rel, vol, fw, off[1]); g.setZ(300);
    Printer pr; pr.relative = rel; double dep[2] = { 0, 0 }, ret[2] = { 0, 0 }, pend[2] = { 0, 0 }, area[2] = { areaOf(0), areaOf(1) };
    std::vector<double> vols[2]; int requests[2] = { 0, 0 }; int64_t x = 0, y = 0, hop = 0; bool zknown = false;
    const double window = sx_double("window", 0, 20); const int maxcount = 1;
    auto settle = [&](const char*) {
        pr.run(g.gcode_parts_.back()->str()); sx_assert(!pr.bad, "every line is a well-formed command"); int t = pr.tool; sx_assert((size_t)t == g.getExtruderNr(), "the active tool is the current extruder");
        for (int e = 0; e < 2; e++) {
            double k = vol ? 1.0 : area[e], want = dep[e] - (fw ? 0.0 : ret[e] * area[e]); sx_assert(near(pr.filament[e] * k, want, 1e-3), "filament moved equals material deposited minus the current retraction");
            if (fw) sx_assert(pr.fwRetracted[e] == (ret[e] != 0), "the firmware is retracted exactly when a retraction is active");
            sx_assert(near(g.getTotalFilamentUsed(e), dep[e], 1e-3), "reported filament use equals the material deposited"); } };
    static const int64_t LEN[3] = { 10000, 30000, 4000000 };
    for (int i = 0; i < HX_B(3, 4); i++) {
        int op = (int)sx_concrete(sx_int(hx_n("op", i).c_str(), 0, 5)); int t = (int)g.getExtruderNr();
        if (op == 0) { x = sx_int(hx_n("tx", i).c_str(), -300000, 300000); y += 5000; g.writeTravel(Point2LL(x, y), Velocity{ 100.0 }); settle("travel"); sx_assert(sx_and(pr.x + off[t] == x, pr.y == y), "a travel move ends at the requested position"); sx_assert(sx_and(pr.z - 300 - hop <= 1, 300 + hop - pr.z <= 1), "a travel move runs at layer height plus z-hop"); sx_assert(!pr.movedWithE, "a travel move does not extrude"); zknown = true; }
        else if (op == 1) {
            double flow = sx_double(hx_n("flow", i).c_str(), 0.001, 5); int64_t len = LEN[i % 3]; x += len; bool wasHop = hop != 0;
            // start from a known place: real plans travel first
            if (!zknown) { g.writeTravel(Point2LL(x - len, y), Velocity{ 100.0 }); pr.run(g.gcode_parts_.back()->str()); zknown = true; }
            double before = dep[t] + pend[t]; g.writeExtrusion(Point2LL(x, y), Velocity{ 50.0 }, flow, PrintFeatureType::OuterWall); dep[t] = before + flow * (double(len) * 0.001); pend[t] = 0; ret[t] = 0; hop = 0; (void)wasHop; settle("extrude");
            sx_assert(pr.extrudingMoves == 1, "an extrusion is one extruding move"); double k = vol ? 1.0 : area[t]; sx_assert(near(pr.startFilament * k, before, 1e-3), "material is unretracted and primed before the line starts"); sx_assert(!pr.retractedStart, "the firmware is unretracted before the line starts");
            sx_assert(sx_and(pr.startZ >= 299, pr.startZ <= 301), "the z-hop is undone before the line starts"); sx_assert(sx_and(sx_and(pr.x + off[t] == x, pr.y == y), sx_and(pr.z >= 299, pr.z <= 301)), "an extrusion ends at the requested position"); }
        else if (op == 2) {
            RetractionConfig c{}; c.distance = sx_double(hx_n("dist", i).c_str(), 0.1, 10); c.speed = 25.0; c.primeSpeed = 20.0; c.prime_volume = sx_double(hx_n("pv", i).c_str(), 0, 5); c.retraction_extrusion_window = window; c.retraction_count_max = maxcount;
            double old = ret[t]; if (old != 0) sx_assume(sx_or(c.distance - old >= 1e-3, old - c.distance >= 1e-3)); bool done = g.writeRetraction(c);
            if (!done) { sx_assert(requests[t] >= maxcount, "a retraction within the allowed count is performed"); }
            else if (vols[t].size() >= size_t(maxcount)) sx_assert(dep[t] >= vols[t][vols[t].size() - maxcount] + window * area[t] - 1e-3, "no more than the allowed retractions happen within the extrusion window");
            requests[t]++; if (done) { double d = c.distance - old; if (sx_or(d >= 1e-6, d <= -1e-6)) { ret[t] = c.distance; pend[t] += c.prime_volume; } vols[t].push_back(dep[t]); }
            settle("retract"); sx_assert(!pr.moved, "a retraction does not move the head"); }
        else if (op == 3) { hop = sx_int(hx_n("hop", i).c_str(), 1, 5000); g.writeZhopStart(hop, Velocity{ 10.0 }); settle("hop"); sx_assert(sx_and(pr.z - 300 - hop <= 1, 300 + hop - pr.z <= 1), "a z-hop lifts the head by its height (to a micron)"); }
        else if (op == 4) { double v = sx_double(hx_n("prime", i).c_str(), 0, 5); g.addExtraPrimeAmount(v); pend[t] += v; settle("prime"); }
        else { // switch extruders: the old one is retracted
            RetractionConfig c{}; c.distance = sx_double(hx_n("sdist", i).c_str(), 0.1, 10); c.speed = 25.0; c.primeSpeed = 20.0; c.prime_volume = 0; c.retraction_extrusion_window = window; c.retraction_count_max = maxcount;
            if (ret[t] != 0) sx_assume(sx_or(c.distance - ret[t] >= 1e-3, ret[t] - c.distance >= 1e-3)); double d = c.distance - ret[t]; bool skip = fw && ret[t] != 0; if (sx_and(!skip, sx_or(d >= 1e-6, d <= -1e-6))) ret[t] = c.distance; vols[t].push_back(dep[t]); requests[t]++;
            g.switchExtruder(1 - t, c); settle("switch"); zknown = false; }
    }
    sx_observe("z", pr.z); sx_reach("end");
}
SX_HARNESS(one_move, "a single extrusion with symbolic end point") {
    GCodeExport g; setupScene(g, false, false, false, 0); g.setZ(300); int ax = (int)sx_concrete(sx_int("axis", 0, 1)); double flow = HX_B(0.05, 0.1) * (double)sx_concrete(sx_int("flow", 1, 3)); int64_t d = sx_int("d", 1, 400000);
    Printer pr; g.writeTravel(Point2LL(1000, 2000), Velocity{ 100.0 }); pr.run(g.gcode_parts_.back()->str()); double f0 = pr.filament[0];
    Point2LL to(1000 + (ax ? 0 : d), 2000 + (ax ? d : 0)); g.writeExtrusion(to, Velocity{ 50.0 }, flow, PrintFeatureType::OuterWall); pr.run(g.gcode_parts_.back()->str());
    sx_assert(sx_and(pr.x == to.X, pr.y == to.Y), "the line ends at the requested point"); double want = flow * (double(d) * 0.001) / areaOf(0), got = pr.filament[0] - f0; sx_assert(near(got, want, 1e-5 + 1e-9), "extruded filament is volume per millimetre times length over filament cross-section"); sx_assert(near(pr.f, 3000, 0.1), "the feed rate is the requested speed"); sx_reach("end");
}
SX_HARNESS(retraction_limit, "retractions within the extrusion window, up to two allowed") {
    GCodeExport g; setupScene(g, false, false, false, 0); g.setZ(300); size_t maxcount = sx_concrete(sx_int("max", 1, 2)); double window = sx_double("window", 0.5, 20), dep = 0, area = areaOf(0); std::vector<double> vols; int64_t x = 1000; int requests = 0; double last = 0; g.writeTravel(Point2LL(x, 2000), Velocity{ 100.0 });
    for (int i = 0; i < HX_B(5, 6); i++) { bool retract = sx_concrete(sx_int(hx_n("op", i).c_str(), 0, 1)) != 0;
        if (!retract) { double flow = sx_double(hx_n("flow", i).c_str(), 0.01, 5); x += 30000; g.writeExtrusion(Point2LL(x, 2000), Velocity{ 50.0 }, flow, PrintFeatureType::OuterWall); dep += flow * 30; last = 0; continue; }
        RetractionConfig c{}; c.distance = 1 + i; c.speed = 25.0; c.primeSpeed = 20.0; c.prime_volume = 0; c.retraction_extrusion_window = window; c.retraction_count_max = maxcount; bool over = false;
        if (vols.size() >= maxcount) { double ref = vols[vols.size() - maxcount]; sx_assume(sx_or(dep - ref - window * area >= 1e-3, dep - ref - window * area <= -1e-3)); over = dep < ref + window * area; }
        const size_t chars = g.gcode_parts_.back()->str().size(); bool done = g.writeRetraction(c), wrote = g.gcode_parts_.back()->str().size() != chars;
        sx_assert(done == !over, "a retraction is performed exactly when fewer than the allowed number happened within the extrusion window"); sx_assert(done == wrote, "a refused retraction writes nothing, an accepted one retracts"); if (done) { vols.push_back(dep); last = c.distance; } requests++; (void)last; }
    sx_reach("end");
}
SX_HARNESS(flow_compensation, "flow-rate compensation shifts the extruder by the requested offset, once, in absolute and relative mode") {
    bool rel = sx_concrete(sx_int("rel", 0, 1)) != 0; GCodeExport g; setupScene(g, rel, false, false, 0); g.setZ(300); double mx = sx_double("maxOffset", 0.5, 4), factor = sx_concrete(sx_int("factor", 1, 2)) * 0.5; g.setFlowRateExtrusionSettings(mx, factor);
    Printer pr; pr.relative = rel; double off = 0, dep = 0; int64_t x = 1000; g.writeTravel(Point2LL(x, 2000), Velocity{ 100.0 }); pr.run(g.gcode_parts_.back()->str());
    for (int i = 0; i < HX_B(3, 4); i++) {
        int op = (int)sx_concrete(sx_int(hx_n("op", i).c_str(), 0, 2));
        if (op == 2) { x += 3000; g.writeTravel(Point2LL(x, 2000), Velocity{ 100.0 }); }
        else { double flow = sx_double(hx_n("flow", i).c_str(), 0.01, 0.5), sp = 40 + 10 * i; x += 10000; g.writeExtrusion(Point2LL(x, 2000), Velocity{ sp }, flow, PrintFeatureType::OuterWall, op == 1); if (op == 1) { off = sp * flow * factor; if (off > mx) off = mx; } dep += flow * 10; }
        pr.run(g.gcode_parts_.back()->str()); sx_assert(!pr.bad, "every line is a well-formed command"); sx_assert(near(pr.filament[0], dep / areaOf(0) + off, 1e-4), "the extruder stands at the deposited filament plus the compensation offset"); }
    sx_reach("end");
}
