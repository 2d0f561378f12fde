// Stand-in for the LLNL units library (submodule not present): a small table of linear units.
#pragma once
#include <string>
#include <string_view>
namespace units {
class precise_unit {
    double mult_{1.0};
    double offset_{0.0};
    int dim_{0};  // 0: dimensionless, <0: invalid

  public:
    constexpr precise_unit() = default;
    constexpr precise_unit(double m, int dim, double off = 0.0): mult_(m), offset_(off), dim_(dim) {}
    constexpr double multiplier() const { return mult_; }
    constexpr double offset() const { return offset_; }
    constexpr int dim() const { return dim_; }
    constexpr bool operator==(const precise_unit& o) const
    {
        return mult_ == o.mult_ && dim_ == o.dim_ && offset_ == o.offset_;
    }
    constexpr bool operator!=(const precise_unit& o) const { return !(*this == o); }
};
namespace precise {
    inline constexpr precise_unit one{1.0, 0};
    inline constexpr precise_unit s{1.0, 2};
    inline constexpr precise_unit ms{1e-3, 2};
    inline constexpr precise_unit us{1e-6, 2};
    inline constexpr precise_unit ns{1e-9, 2};
    inline constexpr precise_unit min{60.0, 2};
    inline constexpr precise_unit hr{3600.0, 2};
    inline constexpr precise_unit m{1.0, 1};
    inline constexpr precise_unit invalid{1.0, -1};
    namespace time {
        using precise::hr;
    }
}  // namespace precise
precise_unit unit_from_string(std::string unit_string);
inline bool is_valid(const precise_unit& u) { return u.dim() >= 0; }
double convert(double val, const precise_unit& start, const precise_unit& result);
double convert(const precise_unit& start, const precise_unit& result);
double quick_convert(const precise_unit& start, const precise_unit& result);
std::string to_string(const precise_unit& u);
}  // namespace units
