// Common prelude of the harnesses.
#pragma once
#include "sx.h"
#include <spdlog/spdlog.h>
namespace { struct HxQuiet { HxQuiet() { spdlog::set_level(spdlog::level::off); } } hxQuiet; }
typedef __int128 hx_i128;
#ifdef SX_THOROUGH
static constexpr bool HX_T = true;
#else
static constexpr bool HX_T = false;
#endif
#define HX_B(quick, thorough) (HX_T ? (thorough) : (quick))
static inline std::string hx_n(const char* base, int i) { return std::string(base) + std::to_string(i); }
static inline int64_t hx_min(int64_t a, int64_t b) { return a < b ? a : b; }
static inline int64_t hx_max(int64_t a, int64_t b) { return a > b ? a : b; }
