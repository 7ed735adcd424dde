// Stand-in for cura-formulae-engine (not installed here): values only; no expression is ever evaluated.
#pragma once
#include <spdlog/spdlog.h>
#include <cstdint>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <unordered_map>
#include <variant>
#include <vector>
namespace zeus { template<class T, class E> struct expected { std::optional<T> v; bool has_value() const { return v.has_value(); } const T& value() const { return *v; } }; }
namespace CuraFormulaeEngine {
namespace eval {
struct Value {
    std::variant<bool, std::int64_t, double, std::string, std::vector<Value>> value;
    Value() : value(false) {}
    template<class T, class = std::enable_if_t<!std::is_same_v<std::decay_t<T>, Value>>> Value(const T& v) { if constexpr (std::is_same_v<T, bool>) value = v; else if constexpr (std::is_integral_v<T>) value = static_cast<std::int64_t>(v); else if constexpr (std::is_floating_point_v<T>) value = static_cast<double>(v); else if constexpr (std::is_convertible_v<T, std::string>) value = std::string(v); else if constexpr (std::is_constructible_v<std::vector<Value>, T>) value = std::vector<Value>(v); else { std::vector<Value> l; for (const auto& x : v) l.emplace_back(x); value = l; } }
    std::string toString() const { if (auto* s = std::get_if<std::string>(&value)) return *s; return {}; }
};
typedef zeus::expected<Value, int> Result;
}
namespace env {
class Environment { public: virtual ~Environment() = default;
    std::optional<eval::Value> get(const std::string& k) const { return getImpl(k); } bool has(const std::string& k) const { return hasImpl(k); }
protected: virtual std::optional<eval::Value> getImpl(const std::string&) const noexcept { return std::nullopt; } virtual bool hasImpl(const std::string&) const noexcept { return false; } virtual std::unordered_map<std::string, eval::Value> getAllImpl() const noexcept { return {}; } };
class ChainableEnvironment : public Environment { public: explicit ChainableEnvironment(const Environment* s = nullptr) : shadow(s) {} const Environment* shadow; };
class LocalEnvironment : public ChainableEnvironment { public: explicit LocalEnvironment(const Environment* s = nullptr) : ChainableEnvironment(s) {} std::unordered_map<std::string, eval::Value> m; void add(const std::unordered_map<std::string, eval::Value>& o) { for (auto& [k, v] : o) m[k] = v; } void set(const std::string& k, const eval::Value& v) { m[k] = v; } };
class EnvironmentMap : public Environment {};
inline const Environment std_env;
}
}
