#include "units.hpp"

#include <limits>
#include <map>
namespace units {
precise_unit unit_from_string(std::string s)
{
    static const std::map<std::string, precise_unit> table{
        {"", {1.0, 0}},         {"1", {1.0, 0}},       {"m", {1.0, 1}},        {"km", {1000.0, 1}},
        {"cm", {0.01, 1}},      {"mm", {0.001, 1}},    {"ft", {0.3048, 1}},    {"in", {0.0254, 1}},
        {"s", {1.0, 2}},        {"sec", {1.0, 2}},     {"ms", {1e-3, 2}},      {"us", {1e-6, 2}},
        {"ns", {1e-9, 2}},      {"min", {60.0, 2}},    {"minute", {60.0, 2}},  {"minutes", {60.0, 2}},
        {"hr", {3600.0, 2}},    {"hour", {3600.0, 2}}, {"day", {86400.0, 2}},  {"week", {604800.0, 2}},
        {"kg", {1.0, 3}},       {"g", {1e-3, 3}},      {"W", {1.0, 4}},        {"kW", {1e3, 4}},
        {"MW", {1e6, 4}},       {"V", {1.0, 5}},       {"kV", {1e3, 5}},       {"A", {1.0, 6}},
        {"degC", {1.0, 7, 273.15}}, {"K", {1.0, 7}},   {"m/s", {1.0, 8}},      {"km/s", {1000.0, 8}},
        {"%", {0.01, 0}},       {"Hz", {1.0, 9}},      {"rad", {1.0, 10}}};
    auto f = table.find(s);
    return f == table.end() ? precise::invalid : f->second;
}
double convert(double v, const precise_unit& a, const precise_unit& b)
{
    if (a.dim() != b.dim()) {
        return std::numeric_limits<double>::quiet_NaN();
    }
    if (a == b) {
        return v;
    }
    if (a.offset() == 0.0 && b.offset() == 0.0) {
        return v * (a.multiplier() / b.multiplier());
    }
    return (v * a.multiplier() + a.offset() - b.offset()) / b.multiplier();
}
double convert(const precise_unit& a, const precise_unit& b)
{
    return convert(1.0, a, b);
}
double quick_convert(const precise_unit& a, const precise_unit& b)
{
    return (a.dim() == b.dim()) ? a.multiplier() / b.multiplier() : std::numeric_limits<double>::quiet_NaN();
}
std::string to_string(const precise_unit& u)
{
    return std::to_string(u.multiplier()) + "#" + std::to_string(u.dim());
}
}  // namespace units
