// Application, Slice and Scene without the rest of the program: the code under test looks its settings and its communication up there.
#pragma once
#include "hx.h"
#include "Application.h"
#include "ExtruderTrain.h"
#include "Slice.h"
#include "communication/Communication.h"
namespace cura {
#ifndef APP_NO_DEFS
Application::Application() {} Application::~Application() {}
Application& Application::getInstance() { static Application* a = new Application(); return *a; }
Scene::Scene(const size_t n) : mesh_groups(n), current_mesh_group(mesh_groups.begin()) {}
Slice::Slice(const size_t n) : scene(n) {}
#endif
#ifdef APP_RESOLVER // the formula engine is not installed here: templates are taken literally
}
#include "gcode_export/GcodeTemplateResolver.h"
namespace cura {
void GcodeTemplateResolver::prepareForResolving(const size_t, const std::unordered_map<std::string, CuraFormulaeEngine::eval::Value>&) {}
std::string GcodeTemplateResolver::resolveGCodeTemplate(const std::string& input, const ResolvingExtruderContext&, const std::unordered_map<std::string, CuraFormulaeEngine::eval::Value>&) const { return input; }
#endif
struct NullComm : Communication {
    bool hasSlice() const override { return false; } void sendProgress(double) const override {} void sendLayerComplete(const LayerIndex::value_type&, const coord_t&, const coord_t&) override {}
    void sendLineTo(const PrintFeatureType&, const Point3LL&, const coord_t&, const coord_t&, const Velocity&) override {} void sendCurrentPosition(const Point3LL&) override {}
    void setExtruderForSend(const ExtruderTrain&) override {} void setLayerForSend(const LayerIndex::value_type&) override {} void sendOptimizedLayerData() override {}
    void sendPrintInformation(const std::vector<Duration>&, const PrintInformation&) const override {} void sendGCodePart(const std::string&) override {} void sendSliceUUID(const std::string&) const override {} void sendFinishedSlicing() const override {} void sliceNext() override {}
};
static Slice& appSetup(size_t extruders, std::shared_ptr<Communication> comm = std::make_shared<NullComm>()) {
    Application& a = Application::getInstance(); a.communication_ = comm; a.current_slice_ = std::make_shared<Slice>(1); Scene& s = a.current_slice_->scene; s.extruders.clear(); s.extruders.reserve(extruders);
    for (size_t i = 0; i < extruders; i++) s.extruders.emplace_back(i, &s.settings);
    for (auto& m : s.mesh_groups) m.settings.setParent(&s.settings);
    return *a.current_slice_; }
}
