// Stand-in for gmlc/utilities timeRepresentation (submodule not present): 64-bit fixed point time.
#pragma once
#include <chrono>
#include <cmath>
#include <cstdint>
#include <limits>
#include <ostream>
#include <type_traits>

enum class time_units : int { ps = 0, ns = 1, us = 2, ms = 3, s = 4, sec = 5, minutes = 6, hr = 7, day = 8, week = 9 };

constexpr double toSecondMultiplier(time_units u) noexcept
{
    switch (u) {
        case time_units::ps: return 1e-12;
        case time_units::ns: return 1e-9;
        case time_units::us: return 1e-6;
        case time_units::ms: return 1e-3;
        case time_units::minutes: return 60.0;
        case time_units::hr: return 3600.0;
        case time_units::day: return 86400.0;
        case time_units::week: return 604800.0;
        default: return 1.0;
    }
}

namespace timeshim {
constexpr std::int64_t pow10(int n)
{
    std::int64_t r = 1;
    for (int i = 0; i < n; ++i) {
        r *= 10;
    }
    return r;
}
constexpr std::int64_t quick_round(double v)
{
    return static_cast<std::int64_t>((v >= 0.0) ? (v + 0.5) : (v - 0.5));
}
/** ticks of 10^-N s: numerator/denominator for one unit */
template<int N>
constexpr __int128 unitNum(time_units u)
{
    switch (u) {
        case time_units::ps: return (N >= 12) ? pow10(N - 12) : 1;
        case time_units::ns: return (N >= 9) ? pow10(N - 9) : 1;
        case time_units::us: return (N >= 6) ? pow10(N - 6) : 1;
        case time_units::ms: return (N >= 3) ? pow10(N - 3) : 1;
        case time_units::minutes: return static_cast<__int128>(pow10(N)) * 60;
        case time_units::hr: return static_cast<__int128>(pow10(N)) * 3600;
        case time_units::day: return static_cast<__int128>(pow10(N)) * 86400;
        case time_units::week: return static_cast<__int128>(pow10(N)) * 604800;
        default: return pow10(N);
    }
}
template<int N>
constexpr __int128 unitDen(time_units u)
{
    switch (u) {
        case time_units::ps: return (N >= 12) ? 1 : pow10(12 - N);
        case time_units::ns: return (N >= 9) ? 1 : pow10(9 - N);
        case time_units::us: return (N >= 6) ? 1 : pow10(6 - N);
        case time_units::ms: return (N >= 3) ? 1 : pow10(3 - N);
        default: return 1;
    }
}
}  // namespace timeshim

template<int N, typename base = std::int64_t>
class count_time {
  public:
    using baseType = base;
    static constexpr int fac = N;
    static constexpr base iFactor = timeshim::pow10(N);
    static constexpr double dFactor = static_cast<double>(timeshim::pow10(N));
    static constexpr double ddivFactor = 1.0 / static_cast<double>(timeshim::pow10(N));
    static constexpr base maxVal() noexcept { return (std::numeric_limits<base>::max)(); }
    static constexpr base minVal() noexcept { return -(std::numeric_limits<base>::max)(); }
    static constexpr base zeroVal() noexcept { return base(0); }
    static constexpr base epsilon() noexcept { return base(1); }
    static constexpr base convert(double t) noexcept
    {
        const double hi = static_cast<double>((std::numeric_limits<base>::max)()) * ddivFactor;
        if (t >= hi) {
            return maxVal();
        }
        if (t <= -hi) {
            return minVal();
        }
        const auto ip = static_cast<base>(t);
        const double fp = t - static_cast<double>(ip);
        const auto fr = static_cast<base>(timeshim::quick_round(fp * dFactor));
        const __int128 total = static_cast<__int128>(ip) * iFactor + fr;
        if (total >= maxVal()) {
            return maxVal();
        }
        if (total <= minVal()) {
            return minVal();
        }
        return static_cast<base>(total);
    }
    static constexpr double toDouble(base v) noexcept
    {
        return static_cast<double>(v / iFactor) + static_cast<double>(v % iFactor) * ddivFactor;
    }
    static constexpr std::int64_t toCount(base v, time_units u) noexcept
    {
        return static_cast<std::int64_t>(static_cast<__int128>(v) * timeshim::unitDen<N>(u) /
                                         timeshim::unitNum<N>(u));
    }
    static constexpr base fromCount(std::int64_t c, time_units u) noexcept
    {
        const __int128 r =
            static_cast<__int128>(c) * timeshim::unitNum<N>(u) / timeshim::unitDen<N>(u);
        if (r >= maxVal()) {
            return maxVal();
        }
        if (r <= minVal()) {
            return minVal();
        }
        return static_cast<base>(r);
    }
    static constexpr std::int64_t seconds(base v) noexcept { return v / iFactor; }
};

template<class Tconv>
class TimeRepresentation {
  public:
    using baseType = typename Tconv::baseType;

  private:
    baseType code_;
    struct raw {};
    constexpr TimeRepresentation(raw, baseType v) noexcept: code_(v) {}

  public:
    constexpr TimeRepresentation() noexcept: code_(Tconv::zeroVal()) {}
    constexpr TimeRepresentation(double t) noexcept: code_(Tconv::convert(t)) {}  // NOLINT
    constexpr TimeRepresentation(std::int64_t count, time_units u) noexcept:
        code_(Tconv::fromCount(count, u))
    {
    }
    template<class Rep, class Period>
    constexpr TimeRepresentation(std::chrono::duration<Rep, Period> d) noexcept:  // NOLINT
        code_(Tconv::fromCount(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(),
                               time_units::ns))
    {
    }
    static constexpr TimeRepresentation maxVal() noexcept { return {raw{}, Tconv::maxVal()}; }
    static constexpr TimeRepresentation minVal() noexcept { return {raw{}, Tconv::minVal()}; }
    static constexpr TimeRepresentation zeroVal() noexcept { return {raw{}, Tconv::zeroVal()}; }
    static constexpr TimeRepresentation epsilon() noexcept { return {raw{}, Tconv::epsilon()}; }

    constexpr operator double() const noexcept { return Tconv::toDouble(code_); }
    constexpr baseType getBaseTimeCode() const noexcept { return code_; }
    constexpr void setBaseTimeCode(baseType v) noexcept { code_ = v; }
    constexpr std::int64_t toCount(time_units u) const noexcept { return Tconv::toCount(code_, u); }
    constexpr std::int64_t seconds() const noexcept { return Tconv::seconds(code_); }
    constexpr std::chrono::milliseconds to_ms() const noexcept
    {
        return std::chrono::milliseconds(toCount(time_units::ms));
    }
    constexpr std::chrono::nanoseconds to_ns() const noexcept
    {
        return std::chrono::nanoseconds(toCount(time_units::ns));
    }

    constexpr TimeRepresentation& operator=(double t) noexcept
    {
        code_ = Tconv::convert(t);
        return *this;
    }
    constexpr TimeRepresentation operator-() const noexcept { return {raw{}, -code_}; }

    constexpr TimeRepresentation& operator+=(TimeRepresentation o) noexcept
    {
        code_ += o.code_;
        return *this;
    }
    constexpr TimeRepresentation& operator-=(TimeRepresentation o) noexcept
    {
        code_ -= o.code_;
        return *this;
    }
    constexpr TimeRepresentation& operator*=(int m) noexcept
    {
        code_ *= m;
        return *this;
    }
    constexpr TimeRepresentation& operator*=(double m) noexcept
    {
        code_ = Tconv::convert(Tconv::toDouble(code_) * m);
        return *this;
    }
    constexpr TimeRepresentation& operator/=(int m) noexcept
    {
        code_ /= m;
        return *this;
    }
    constexpr TimeRepresentation& operator/=(double m) noexcept
    {
        code_ = Tconv::convert(Tconv::toDouble(code_) / m);
        return *this;
    }
    constexpr TimeRepresentation& operator%=(TimeRepresentation o) noexcept
    {
        code_ %= o.code_;
        return *this;
    }

    friend constexpr TimeRepresentation operator+(TimeRepresentation a, TimeRepresentation b) noexcept
    {
        return {raw{}, a.code_ + b.code_};
    }
    friend constexpr TimeRepresentation operator-(TimeRepresentation a, TimeRepresentation b) noexcept
    {
        return {raw{}, a.code_ - b.code_};
    }
    friend constexpr TimeRepresentation operator+(TimeRepresentation a, double b) noexcept
    {
        return a + TimeRepresentation(b);
    }
    friend constexpr TimeRepresentation operator+(double a, TimeRepresentation b) noexcept
    {
        return TimeRepresentation(a) + b;
    }
    friend constexpr TimeRepresentation operator-(TimeRepresentation a, double b) noexcept
    {
        return a - TimeRepresentation(b);
    }
    friend constexpr TimeRepresentation operator-(double a, TimeRepresentation b) noexcept
    {
        return TimeRepresentation(a) - b;
    }
    friend constexpr TimeRepresentation operator%(TimeRepresentation a, TimeRepresentation b) noexcept
    {
        return {raw{}, a.code_ % b.code_};
    }
    template<class I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    friend constexpr TimeRepresentation operator*(TimeRepresentation a, I m) noexcept
    {
        return {raw{}, static_cast<baseType>(a.code_ * static_cast<baseType>(m))};
    }
    template<class I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    friend constexpr TimeRepresentation operator*(I m, TimeRepresentation a) noexcept
    {
        return {raw{}, static_cast<baseType>(a.code_ * static_cast<baseType>(m))};
    }
    friend constexpr TimeRepresentation operator*(TimeRepresentation a, double m) noexcept
    {
        return TimeRepresentation(Tconv::toDouble(a.code_) * m);
    }
    template<class I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    friend constexpr TimeRepresentation operator/(TimeRepresentation a, I m) noexcept
    {
        return {raw{}, static_cast<baseType>(a.code_ / static_cast<baseType>(m))};
    }
    friend constexpr TimeRepresentation operator/(TimeRepresentation a, double m) noexcept
    {
        return TimeRepresentation(Tconv::toDouble(a.code_) / m);
    }
    friend constexpr double operator/(TimeRepresentation a, TimeRepresentation b) noexcept
    {
        return Tconv::toDouble(a.code_) / Tconv::toDouble(b.code_);
    }
#define TIMESHIM_CMP(op)                                                                           \
    friend constexpr bool operator op(TimeRepresentation a, TimeRepresentation b) noexcept         \
    {                                                                                              \
        return a.code_ op b.code_;                                                                 \
    }                                                                                              \
    friend constexpr bool operator op(TimeRepresentation a, double b) noexcept                     \
    {                                                                                              \
        return a.code_ op Tconv::convert(b);                                                       \
    }                                                                                              \
    friend constexpr bool operator op(double a, TimeRepresentation b) noexcept                     \
    {                                                                                              \
        return Tconv::convert(a) op b.code_;                                                       \
    }                                                                                              \
    template<class I, std::enable_if_t<std::is_integral_v<I>, int> = 0>                            \
    friend constexpr bool operator op(TimeRepresentation a, I b) noexcept                          \
    {                                                                                              \
        return a.code_ op Tconv::convert(static_cast<double>(b));                                  \
    }                                                                                              \
    template<class I, std::enable_if_t<std::is_integral_v<I>, int> = 0>                            \
    friend constexpr bool operator op(I a, TimeRepresentation b) noexcept                          \
    {                                                                                              \
        return Tconv::convert(static_cast<double>(a)) op b.code_;                                  \
    }
    TIMESHIM_CMP(==)
    TIMESHIM_CMP(!=)
    TIMESHIM_CMP(<)
    TIMESHIM_CMP(>)
    TIMESHIM_CMP(<=)
    TIMESHIM_CMP(>=)
#undef TIMESHIM_CMP
    friend std::ostream& operator<<(std::ostream& os, TimeRepresentation t)
    {
        return os << Tconv::toDouble(t.code_);
    }
};
namespace std {
template<class T>
struct hash<TimeRepresentation<T>> {
    size_t operator()(const TimeRepresentation<T>& t) const noexcept
    {
        return hash<typename TimeRepresentation<T>::baseType>{}(t.getBaseTimeCode());
    }
};
}  // namespace std
