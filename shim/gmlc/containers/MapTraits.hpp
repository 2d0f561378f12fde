#pragma once
#include <cstdint>
#include <string>
#include <string_view>
#include <type_traits>
template<class T>
struct is_easily_hashable {
    static constexpr bool value =
        std::is_arithmetic_v<T> || std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>;
};
enum class reference_stability : std::uint8_t { unstable = 0, stable = 4 };
struct no_search_type {};
inline constexpr no_search_type no_search{};
namespace gmlc::containers {
using ::no_search;
using ::no_search_type;
using ::reference_stability;
}
