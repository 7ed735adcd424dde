//@ inc: stubs
//@ defs: -fno-access-control
//@ src: src/gcode_export/gcodeExport.cpp src/gcode_export/FixedGCodePart.cpp src/utils/AABB3D.cpp src/geometry/Point3LL.cpp src/settings/Settings.cpp src/ExtruderTrain.cpp
//@ bound: every history of 3 (thorough 4) nozzle temperature commands and extruder selections on three extruders with listed temperatures in four heater/tool configurations and three flavours; of 3 (4) fan commands on two fans with symbolic speeds 0 to 100 %; of 3 (4) acceleration and jerk commands with listed values in five flavours; of 3 bed and chamber temperatures
//@ assume: the firmware executes M104/M109/M116/M140/M190/M106/M107/M126/M127/M201/M202/M204/M205/M207/M566 as documented for its flavour
//@ run: nozzle_temperature quick=60 thorough=900
//@ run: fans quick=60 thorough=600
//@ run: motion_limits quick=40 thorough=600
//@ run: bed quick=30 thorough=300
#include "gcode.h"
static double lastJerk, lastAcc;
struct Lines { size_t pos = 0; template <class F> void each(const std::string& all, F f) { while (pos < all.size()) { size_t e = all.find('\n', pos); std::string l = all.substr(pos, e - pos); pos = e + 1; f(l); } } };
static double arg(const std::string& l, char c, double dflt) { for (size_t i = 1; i + 1 < l.size(); i++) if (l[i] == c && l[i - 1] == ' ') { const char* p = l.c_str() + i + 1; return sx_num(p, &p); } return dflt; }
static void setFlavor(GCodeExport& g, const char* f) { Application::getInstance().current_slice_->scene.settings.add("machine_gcode_flavor", f); g.preSetup(0); g.setZ(300); }
SX_HARNESS(nozzle_temperature, "what the firmware's heaters are set to, and whether they were waited for") {
    static const char* FL[3] = { "RepRap (Marlin/Sprinter)", "Griffin", "Makerbot" }; static const double T[3] = { 180, 200, 220.5 };
    int cfg = (int)sx_concrete(sx_int("config", 0, 3)), fl = (int)sx_concrete(sx_int("flavour", 0, 2)); if (!HX_T) sx_assume(fl != 1); bool shared = cfg & 1, always = cfg & 2; GCodeExport g; setupScene(g, false, false, false, 0, 3);
    auto& st = Application::getInstance().current_slice_->scene.settings; for (const char* k : { "machine_nozzle_temp_enabled", "prime_blob_enable" }) st.add(k, "true"); st.add("machine_extruders_share_heater", shared ? "true" : "false"); st.add("machine_always_write_active_tool", always ? "true" : "false"); st.add("material_diameter", "2.85"); st.add("machine_nozzle_offset_x", "0"); setFlavor(g, FL[fl]);
    const int N = 3; double target[3] = { -1, -1, -1 }, want[3] = { -1, -1, -1 }; bool reached[3] = { true, true, true }, mustReach = false; int tool = 0, cur = 0; Lines ls; ls.pos = g.gcode_parts_.back()->str().size(); bool bad = false, pendingWait = false;
    auto heat = [&](int t, double v, bool wait) { int h = shared ? 0 : t; if (target[h] != v && target[h] < v) reached[h] = false; target[h] = v; if (wait) reached[h] = true; };
    for (int i = 0; i < HX_B(3, 4); i++) {
        int op = (int)sx_concrete(sx_int(hx_n("op", i).c_str(), 0, 3)); bool wait = op == 1; int e = 0; double t = 0; 
        if (op == 3) { cur = (cur + 1) % N; g.startExtruder(cur); }
        else { e = op == 2 ? (cur + 1) % N : cur; t = T[sx_concrete(sx_int(hx_n("t", i).c_str(), 0, HX_B(1, 2)))]; g.writeTemperatureCommand(e, t, wait, false); if (!shared) want[e] = t; else if (e == cur) want[0] = want[1] = want[2] = t; }
        ls.each(g.gcode_parts_.back()->str(), [&](const std::string& l) {
            if (l[0] == 'T') { tool = atoi(l.c_str() + 1); return; } if (l.rfind("M135 T", 0) == 0) { tool = atoi(l.c_str() + 6); return; }
            if (l.rfind("M104", 0) == 0 || l.rfind("M109", 0) == 0) { int t2 = (int)arg(l, 'T', tool); heat(t2, arg(l, 'S', -5), l[3] == '9'); if (always && t2 != tool) { tool = t2; } return; }
            if (l == "M116") { reached[shared ? 0 : tool] = true; return; } if (l == "M105" || l.rfind("G92", 0) == 0 || l.rfind("M8", 0) == 0 || l.empty() || l[0] == ';' || l.rfind("M10", 0) == 0 || l.rfind("G", 0) == 0) return; bad = true; });
        sx_assert(!bad, "every line is a known command"); sx_assert(tool == cur, "the active tool is the current extruder, also on firmware that changes tools on any T word");
        for (int x = 0; x < N; x++) sx_assert(target[shared ? 0 : x] == (shared ? want[0] : want[x]), "every heater is set to the temperature last requested for it");
        if (wait) sx_assert(reached[shared ? 0 : e], "after a waiting command the nozzle has reached its temperature"); }
    (void)pendingWait; (void)mustReach; sx_reach("end");
}
SX_HARNESS(fans, "the firmware's fan speeds are those requested, in the scale it expects") {
    int cfg = (int)sx_concrete(sx_int("config", 0, 2)); bool unit = cfg == 1, mb = cfg == 2; GCodeExport g; setupScene(g, false, false, false, 0); auto& sc = Application::getInstance().current_slice_->scene; sc.settings.add("machine_scale_fan_speed_zero_to_one", unit ? "true" : "false"); if (!mb) sc.extruders[1].settings_.add("machine_extruder_cooling_fan_number", "2"); setFlavor(g, mb ? "Makerbot" : "RepRap (Marlin/Sprinter)");
    double fan[3] = { -1, -1, -1 }; Lines ls; ls.pos = g.gcode_parts_.back()->str().size(); bool bad = false;
    for (int i = 0; i < HX_B(3, 4); i++) {
        int e = (int)sx_concrete(sx_int(hx_n("e", i).c_str(), 0, mb ? 0 : 1)); double v = (double)sx_int(hx_n("v", i).c_str(), 0, 1000) / 10.0; g.writeFanCommand(v, e); int n = e ? 2 : 0;
        ls.each(g.gcode_parts_.back()->str(), [&](const std::string& l) { int p = (int)arg(l, 'P', 0); if (p < 0 || p > 2) { bad = true; return; } if (l.rfind("M106", 0) == 0) fan[p] = arg(l, 'S', -5); else if (l.rfind("M107", 0) == 0) fan[p] = 0; else if (l == "M126 T0") fan[0] = 1; else if (l == "M127 T0") fan[0] = 0; else bad = true; });
        sx_assert(!bad, "every line is a fan command"); if (mb) { sx_assert(fan[0] == (v >= 50 ? 1 : 0), "an on/off fan is on from half speed"); continue; }
        double want = unit ? v / 100.0 : v * 255.0 / 100.0, tol = unit ? 0.0051 : 0.051; sx_assert(near(fan[n], want, tol), "the fan runs at the requested speed, to the printed precision"); }
    sx_reach("end");
}
SX_HARNESS(motion_limits, "the firmware's acceleration and jerk are those requested") {
    static const char* FL[5] = { "RepRap (Marlin/Sprinter)", "Repetier", "RepRap (RepRap)", "Cheetah", "Griffin" }; static const double A[3] = { 500, 1500, 0.4 }, J[2] = { 8, 12.5 };
    int fl = (int)sx_concrete(sx_int("flavour", 0, 4)); GCodeExport g; setupScene(g, false, false, false, 0); setFlavor(g, FL[fl]); double print = -1, travel = -1, jerk = -1, wp = -1, wt = -1, wj = -1; Lines ls; ls.pos = g.gcode_parts_.back()->str().size(); bool bad = false;
    for (int i = 0; i < HX_B(3, 4); i++) {
        int op = (int)sx_concrete(sx_int(hx_n("op", i).c_str(), 0, 2)); bool split = fl == 1 || fl == 2; double a = A[sx_concrete(sx_int(hx_n("v", i).c_str(), 0, HX_B(1, 2)))];
        if (op == 0) { g.writePrintAcceleration(Acceleration{ a }); wp = a; if (!split) wt = a; } else if (op == 1) { g.writeTravelAcceleration(Acceleration{ a }); wt = a; if (!split) wp = a; } else { double j = J[i % 2]; g.writeJerk(Velocity{ j }); wj = j; }
        ls.each(g.gcode_parts_.back()->str(), [&](const std::string& l) {
            if (fl == 1 && l.rfind("M201", 0) == 0) { print = arg(l, 'X', -5); bad = bad || arg(l, 'Y', -6) != print; } else if (fl == 1 && l.rfind("M202", 0) == 0) { travel = arg(l, 'X', -5); bad = bad || arg(l, 'Y', -6) != travel; }
            else if (fl == 2 && l.rfind("M204 P", 0) == 0) print = arg(l, 'P', -5); else if (fl == 2 && l.rfind("M204 T", 0) == 0) travel = arg(l, 'T', -5); else if (fl != 1 && fl != 2 && l.rfind("M204 S", 0) == 0) print = travel = arg(l, 'S', -5);
            else if (fl == 1 && l.rfind("M207", 0) == 0) jerk = arg(l, 'X', -5); else if (fl == 2 && l.rfind("M566", 0) == 0) jerk = arg(l, 'X', -5) / 60; else if (fl == 3 && l.rfind("M215", 0) == 0) jerk = arg(l, 'X', -5) / 1000; else if ((fl == 0 || fl == 4) && l.rfind("M205", 0) == 0) { jerk = arg(l, 'X', -5); bad = bad || arg(l, 'Y', -6) != jerk; } else bad = true; });
        sx_assert(!bad, "every line is a command of the flavour"); auto eq = [](double have, double want) { return want < 0 ? have < 0 : have - want <= 0.5001 && want - have <= 0.5001 && have >= 0; };
        sx_assert(eq(print, wp), "the print acceleration is the one last requested"); sx_assert(eq(travel, wt), "the travel acceleration is the one last requested"); sx_assert(wj < 0 ? jerk < 0 : near(jerk, wj, 1e-9), "the jerk is the one last requested"); }
    sx_reach("end");
}
SX_HARNESS(bed, "bed and chamber temperatures") {
    static const char* FL[3] = { "RepRap (Marlin/Sprinter)", "Repetier", "Griffin" }; int fl = (int)sx_concrete(sx_int("flavour", 0, 2)); GCodeExport g; setupScene(g, false, false, false, 0); setFlavor(g, FL[fl]); double bed = 0, room = -1, wb = 0, wr = -1; bool waited = true; Lines ls; ls.pos = g.gcode_parts_.back()->str().size(); bool bad = false;
    for (int i = 0; i < 3; i++) { int op = (int)sx_concrete(sx_int(hx_n("op", i).c_str(), 0, 3)); double t = 40 + 20.5 * (double)sx_concrete(sx_int(hx_n("t", i).c_str(), 0, 1)); bool fresh = true;
        if (op < 2) { fresh = wb != t; g.writeBedTemperatureCommand(t, op == 1); wb = t; } else { g.writeBuildVolumeTemperatureCommand(t, op == 3); if (fl != 2) wr = t; }
        ls.each(g.gcode_parts_.back()->str(), [&](const std::string& l) { if (l.rfind("M140 S", 0) == 0) { bed = arg(l, 'S', -5); waited = false; } else if (l.rfind("M190 S", 0) == 0) { bed = arg(l, 'S', -5); waited = true; } else if (l.rfind("M141 S", 0) == 0 || l.rfind("M191 S", 0) == 0) room = arg(l, 'S', -5); else if (l != "M105") bad = true; });
        sx_assert(!bad, "every line is a known command"); sx_assert(bed == wb, "the bed is set to the temperature last requested"); sx_assert(room == wr, "the chamber is set to the temperature last requested"); if (op == 1 && fresh) sx_assert(waited, "a waiting bed command waits"); }
    sx_reach("end");
}
