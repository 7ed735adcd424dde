// Shared by the harnesses of the G-code writer: a printer that executes the produced text, and the settings the writer needs.
#pragma once
#define APP_RESOLVER
#include <cura-formulae-engine/eval.h>
#include "app.h"
#include "RetractionConfig.h"
#include "gcode_export/gcodeExport.h"
#include "gcode_export/GCodePart.h"
#include <map>
#include <numbers>
using namespace cura;
void TimeEstimateCalculator::plan(Position, Velocity, PrintFeatureType) {}
void TimeEstimateCalculator::setFirmwareDefaults(const Settings&) {}
void TimeEstimateCalculator::addTime(const Duration&) {}
// a printer that executes the produced text
struct Printer {
    double logical = 0; double filament[2] = { 0, 0 }; bool relative = false; bool fwRetracted[2] = { false, false }; int tool = 0; int64_t x = 0, y = 0, z = 20000; double f = 0; size_t pos = 0; bool bad = false;
    bool moved = false, movedWithE = false, retractedStart = false; double startFilament = 0; int64_t startZ = 0; int extrudingMoves = 0; struct Step { int64_t x, y, z; double e; bool xyz; }; std::vector<Step> steps; std::map<std::string, int> other; // about the moves of the last run
    static double num(const char*& p) { return sx_num(p, &p); }
    void run(const std::string& all) {
        moved = movedWithE = false; extrudingMoves = 0; steps.clear();
        while (pos < all.size()) { size_t e = all.find('\n', pos); if (e == std::string::npos) { bad = true; return; } std::string l = all.substr(pos, e - pos); pos = e + 1; line(l); } }
    void line(const std::string& l) {
        const char* p = l.c_str(); if (!*p || *p == ';') return;
        if (l.rfind("M82", 0) == 0) { relative = false; return; } if (l.rfind("M83", 0) == 0) { relative = true; return; }
        if (*p == 'T') { tool = atoi(p + 1); return; }
        if (l == "G10" || l == "G10 S1") { fwRetracted[tool] = true; return; } if (l == "G11") { fwRetracted[tool] = false; return; }
        if (l.rfind("G92 E0", 0) == 0) { logical = 0; return; }
        if (l.rfind("G4 P", 0) == 0) { other["G4"]++; return; }
        if (l.rfind("G0", 0) != 0 && l.rfind("G1", 0) != 0) { bad = true; return; }
        p += 2; bool hx = false, he = false; int64_t nx = x, ny = y, nz = z; double ne = 0;
        while (*p) { if (*p == ' ') { p++; continue; } char c = *p++;
            if (c == 'X') { nx = sx_mm(p, &p); hx = true; } else if (c == 'Y') { ny = sx_mm(p, &p); hx = true; } else if (c == 'Z') { nz = sx_mm(p, &p); hx = true; } else if (c == 'F') f = num(p); else if (c == 'E') { ne = num(p); he = true; } else { bad = true; return; } }
        if (hx) { moved = true; if (he) { movedWithE = true; extrudingMoves++; startFilament = filament[tool]; startZ = z; retractedStart = fwRetracted[tool]; } }
        if (he) { if (relative) { filament[tool] += ne; logical += ne; } else { filament[tool] += ne - logical; logical = ne; } }
        x = nx; y = ny; z = nz; steps.push_back({ x, y, z, filament[tool], hx }); }
};
static bool near(double a, double b, double tol) { return sx_and(a - b <= tol, b - a <= tol); }
static const int64_t OFFX[6] = { 18000, 0, -12345, 500, 18000, 7 };
static void setupScene(GCodeExport& g, bool rel, bool vol, bool fw, int64_t offx, int extruders = 2) {
    Slice& s = appSetup(extruders); auto& st = s.scene.settings; st.add("layer_height", "0.2"); st.add("speed_z_hop", "10"); st.add("retraction_enable", "true");
    for (const char* k : { "machine_extruder_prestart_code", "machine_extruder_start_code", "machine_extruder_end_code", "machine_name" }) st.add(k, "");
    for (const char* k : { "machine_extruder_start_code_duration", "machine_extruder_change_duration", "machine_extruder_end_code_duration", "machine_extruder_cooling_fan_number", "material_bed_temperature_layer_0", "material_bed_temperature" }) st.add(k, "0");
    for (const char* k : { "ppr_enable", "machine_always_write_active_tool", "material_bed_temp_prepend" }) st.add(k, "false");
    st.add("machine_gcode_flavor", vol ? "RepRap (Volumetric)" : "RepRap (Marlin/Sprinter)"); st.add("machine_use_extruder_offset_to_offset_coords", "true"); st.add("relative_extrusion", rel ? "true" : "false"); st.add("machine_firmware_retract", fw ? "true" : "false"); st.add("retraction_prime_speed", "30"); st.add("machine_nozzle_offset_y", "0");
    for (int e = 0; e < extruders; e++) { s.scene.extruders[e].settings_.add("material_diameter", e ? "1.75" : "2.85"); s.scene.extruders[e].settings_.add("machine_nozzle_offset_x", e ? std::to_string(double(offx) / 1000) : "0"); }
    g.preSetup(0); g.setFlowRateExtrusionSettings(0, 0); }
static double areaOf(int e) { double r = e ? 0.875 : 1.425; return std::numbers::pi * r * r; }
