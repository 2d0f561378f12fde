#pragma once
#include "string_viewOps.h"
#include <charconv>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
namespace gmlc::utilities {
namespace convshim {
    /** parse a number at the start; returns characters used (0 on failure) */
    template<class X>
    size_t parse(std::string_view s, X& out)
    {
        size_t lead = s.find_first_not_of(string_viewOps::whiteSpaceCharacters);
        if (lead == std::string_view::npos) {
            return 0;
        }
        std::string t(s.substr(lead));
        size_t plus = (!t.empty() && t[0] == '+') ? 1 : 0;
        if constexpr (std::is_floating_point_v<X>) {
            char* e = nullptr;
            const double d = std::strtod(t.c_str(), &e);
            if (e == t.c_str()) {
                return 0;
            }
            out = static_cast<X>(d);
            return lead + static_cast<size_t>(e - t.c_str());
        } else {
            X v{};
            auto r = std::from_chars(t.data() + plus, t.data() + t.size(), v);
            if (r.ec != std::errc()) {
                return 0;
            }
            out = v;
            return lead + static_cast<size_t>(r.ptr - t.data());
        }
    }
}  // namespace convshim
template<typename X>
X numConv(std::string_view V)
{
    X v{};
    if (convshim::parse<X>(V, v) == 0) {
        throw std::invalid_argument("unable to convert string");
    }
    return v;
}
template<typename X>
X numConv(const std::string& V)
{
    return numConv<X>(std::string_view(V));
}
template<typename X>
X numConv(const char* V)
{
    return numConv<X>(std::string_view(V));
}
template<typename X>
X numConvComp(std::string_view V, size_t& rem)
{
    X v{};
    rem = convshim::parse<X>(V, v);
    if (rem == 0) {
        throw std::invalid_argument("unable to convert string");
    }
    return v;
}
template<typename X>
X numeric_conversion(std::string_view V, const X defValue)
{
    X v{};
    return convshim::parse<X>(V, v) > 0 ? v : defValue;
}
template<typename X>
X numeric_conversionComplete(std::string_view V, const X defValue)
{
    X v{};
    size_t n = convshim::parse<X>(V, v);
    if (n == 0) {
        return defValue;
    }
    while (n < V.size()) {
        if (string_viewOps::whiteSpaceCharacters.find(V[n]) == std::string_view::npos) {
            return defValue;
        }
        ++n;
    }
    return v;
}
template<typename X>
X strViewToInteger(std::string_view input, size_t* charactersUsed = nullptr)
{
    X v{};
    size_t n = convshim::parse<X>(input, v);
    if (n == 0) {
        throw std::invalid_argument("unable to convert string");
    }
    if (charactersUsed != nullptr) {
        *charactersUsed = n;
    }
    return v;
}
template<typename X>
std::vector<X> str2vector(std::string_view line, const X defValue, std::string_view delimiters = ",; ")
{
    std::vector<X> av;
    for (auto& tok : string_viewOps::splitline(line, delimiters)) {
        av.push_back(numeric_conversion<X>(tok, defValue));
    }
    return av;
}
}  // namespace gmlc::utilities
