#include "base64.h"
#include "stringOps.h"
#include "string_viewConversion.h"
#include "string_viewOps.h"
#include "timeStringOps.hpp"

#include <algorithm>
#include <cctype>
#include <cstring>
#include <random>

namespace gmlc::utilities {
void makeLowerCase(std::string& s)
{
    for (auto& c : s) {
        c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
    }
}
void makeUpperCase(std::string& s)
{
    for (auto& c : s) {
        c = static_cast<char>(std::toupper(static_cast<unsigned char>(c)));
    }
}
std::string convertToLowerCase(std::string_view s)
{
    std::string r(s);
    makeLowerCase(r);
    return r;
}
std::string convertToUpperCase(std::string_view s)
{
    std::string r(s);
    makeUpperCase(r);
    return r;
}
std::string characterReplace(std::string_view source, char key, std::string_view repStr)
{
    std::string r;
    for (char c : source) {
        if (c == key) {
            r.append(repStr);
        } else {
            r.push_back(c);
        }
    }
    return r;
}
std::string randomString(std::string::size_type length)
{
    static constexpr char chars[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
    thread_local static std::mt19937 rg{std::random_device{}()};
    std::uniform_int_distribution<std::string::size_type> pick(0, 61);
    std::string s;
    s.reserve(length);
    while (s.size() < length) {
        s.push_back(chars[pick(rg)]);
    }
    return s;
}

namespace string_viewOps {
    void trimString(std::string_view& input, std::string_view trimCharacters)
    {
        input = trim(input, trimCharacters);
    }
    std::string_view trim(std::string_view input, std::string_view trimCharacters)
    {
        const auto b = input.find_first_not_of(trimCharacters);
        if (b == std::string_view::npos) {
            return {};
        }
        const auto e = input.find_last_not_of(trimCharacters);
        return input.substr(b, e - b + 1);
    }
    std::string_view removeQuotes(std::string_view str)
    {
        auto s = trim(str);
        if (s.size() >= 2 && (s.front() == '"' || s.front() == '\'' || s.front() == '`') &&
            s.back() == s.front()) {
            s.remove_prefix(1);
            s.remove_suffix(1);
        }
        return s;
    }
    std::string_view merge(std::string_view s1, std::string_view s2)
    {
        if (s1.empty()) {
            return s2;
        }
        if (s2.empty()) {
            return s1;
        }
        if (s1.data() < s2.data()) {
            const auto diff = s2.data() - (s1.data() + s1.size());
            if (diff >= 0 && diff < 24) {
                return {s1.data(), s1.size() + static_cast<size_t>(diff) + s2.size()};
            }
        }
        return {};
    }
    string_viewVector split(std::string_view str, char delim)
    {
        return splitline(str, std::string_view(&delim, 1));
    }
    string_viewVector splitline(std::string_view line,
                                std::string_view delims,
                                delimiter_compression compression)
    {
        string_viewVector out;
        size_t start = 0;
        while (true) {
            const auto pos = line.find_first_of(delims, start);
            auto tok = (pos == std::string_view::npos) ? line.substr(start) :
                                                         line.substr(start, pos - start);
            if (!(tok.empty() && compression == delimiter_compression::on)) {
                out.push_back(tok);
            }
            if (pos == std::string_view::npos) {
                break;
            }
            start = pos + 1;
        }
        return out;
    }
    string_viewVector splitline(std::string_view line, char delim, delimiter_compression compression)
    {
        return splitline(line, std::string_view(&delim, 1), compression);
    }
    static char closer(char c)
    {
        switch (c) {
            case '[': return ']';
            case '{': return '}';
            case '(': return ')';
            case '<': return '>';
            default: return c;
        }
    }
    static string_viewVector splitAware(std::string_view line,
                                        std::string_view delims,
                                        std::string_view brackets,
                                        delimiter_compression compression)
    {
        string_viewVector out;
        size_t start = 0;
        std::string stack;
        for (size_t i = 0; i <= line.size(); ++i) {
            const bool atEnd = (i == line.size());
            const char c = atEnd ? '\0' : line[i];
            if (!atEnd && !stack.empty()) {
                if (c == stack.back()) {
                    stack.pop_back();
                    continue;
                }
                const bool inQuote =
                    (stack.back() == '\'' || stack.back() == '"' || stack.back() == '`');
                if (!inQuote && brackets.find(c) != std::string_view::npos) {
                    stack.push_back(closer(c));
                }
                continue;
            }
            if (atEnd || delims.find(c) != std::string_view::npos) {
                auto tok = line.substr(start, i - start);
                if (!(tok.empty() && compression == delimiter_compression::on)) {
                    out.push_back(tok);
                }
                start = i + 1;
                continue;
            }
            if (brackets.find(c) != std::string_view::npos &&
                line.find(closer(c), i + 1) != std::string_view::npos) {
                stack.push_back(closer(c));
            }
        }
        return out;
    }
    string_viewVector splitlineQuotes(std::string_view line,
                                      std::string_view delims,
                                      std::string_view quoteChars,
                                      delimiter_compression compression)
    {
        return splitAware(line, delims, quoteChars, compression);
    }
    string_viewVector splitlineBracket(std::string_view line,
                                       std::string_view delims,
                                       std::string_view bracketChars,
                                       delimiter_compression compression)
    {
        return splitAware(line, delims, bracketChars, compression);
    }
}  // namespace string_viewOps

namespace stringOps {
    static stringVector toStrings(const string_viewOps::string_viewVector& v)
    {
        stringVector out;
        out.reserve(v.size());
        for (auto& s : v) {
            out.emplace_back(s);
        }
        return out;
    }
    static string_viewOps::delimiter_compression cv(delimiter_compression c)
    {
        return c == delimiter_compression::on ? string_viewOps::delimiter_compression::on :
                                                string_viewOps::delimiter_compression::off;
    }
    stringVector splitline(std::string_view line, std::string_view d, delimiter_compression c)
    {
        return toStrings(string_viewOps::splitline(line, d, cv(c)));
    }
    stringVector splitline(std::string_view line, char d, delimiter_compression c)
    {
        return toStrings(string_viewOps::splitline(line, d, cv(c)));
    }
    stringVector splitlineQuotes(std::string_view line,
                                 std::string_view d,
                                 std::string_view q,
                                 delimiter_compression c)
    {
        return toStrings(string_viewOps::splitlineQuotes(line, d, q, cv(c)));
    }
    stringVector splitlineBracket(std::string_view line,
                                  std::string_view d,
                                  std::string_view q,
                                  delimiter_compression c)
    {
        return toStrings(string_viewOps::splitlineBracket(line, d, q, cv(c)));
    }
    void trimString(std::string& input, std::string_view trimCharacters)
    {
        input = trim(input, trimCharacters);
    }
    std::string trim(std::string_view input, std::string_view trimCharacters)
    {
        return std::string(string_viewOps::trim(input, trimCharacters));
    }
    std::string removeQuotes(std::string_view str)
    {
        return std::string(string_viewOps::removeQuotes(str));
    }
    std::string removeBrackets(std::string_view str)
    {
        auto s = string_viewOps::trim(str);
        if (s.size() >= 2 && std::string_view("[{(<").find(s.front()) != std::string_view::npos &&
            s.back() == string_viewOps::closer(s.front())) {
            s = s.substr(1, s.size() - 2);
        }
        return std::string(s);
    }
}  // namespace stringOps

time_units timeUnitsFromString(std::string_view unitString)
{
    const auto u = string_viewOps::trim(unitString);
    if (u.empty()) {
        return time_units::s;
    }
    if (u == "ps") return time_units::ps;
    if (u == "ns") return time_units::ns;
    if (u == "us") return time_units::us;
    if (u == "ms") return time_units::ms;
    if (u == "s" || u == "sec" || u == "second" || u == "seconds") return time_units::s;
    if (u == "min" || u == "minute" || u == "minutes") return time_units::minutes;
    if (u == "hr" || u == "hour" || u == "hours") return time_units::hr;
    if (u == "day" || u == "days") return time_units::day;
    if (u == "week" || u == "weeks") return time_units::week;
    throw(std::invalid_argument(std::string("unit ") + std::string(unitString) + " not recognized"));
}
double getTimeValue(std::string_view timeString, time_units defUnit)
{
    const std::string s(timeString);
    char* e = nullptr;
    const double v = std::strtod(s.c_str(), &e);
    if (e == s.c_str()) {
        throw(std::invalid_argument("unable to convert time string: " + s));
    }
    const auto rest = string_viewOps::trim(std::string_view(s).substr(static_cast<size_t>(e - s.c_str())));
    const auto unit = rest.empty() ? defUnit : timeUnitsFromString(rest);
    return v * toSecondMultiplier(unit);
}
double getTimeValue(std::string_view timeString)
{
    return getTimeValue(timeString, time_units::s);
}

static constexpr char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string base64_encode(void const* bytes, size_t size)
{
    const auto* p = static_cast<const unsigned char*>(bytes);
    std::string out;
    for (size_t i = 0; i < size; i += 3) {
        const size_t n = std::min<size_t>(3, size - i);
        unsigned v = static_cast<unsigned>(p[i]) << 16U;
        if (n > 1) v |= static_cast<unsigned>(p[i + 1]) << 8U;
        if (n > 2) v |= p[i + 2];
        out.push_back(b64[(v >> 18U) & 63U]);
        out.push_back(b64[(v >> 12U) & 63U]);
        out.push_back(n > 1 ? b64[(v >> 6U) & 63U] : '=');
        out.push_back(n > 2 ? b64[v & 63U] : '=');
    }
    return out;
}
std::string base64_encode(std::string_view s)
{
    return base64_encode(s.data(), s.size());
}
std::vector<unsigned char> base64_decode(std::string_view s, size_t offset)
{
    std::vector<unsigned char> out;
    unsigned v = 0;
    int bits = 0;
    for (size_t i = offset; i < s.size(); ++i) {
        const char* p = s[i] == '\0' ? nullptr : std::strchr(b64, s[i]);
        if (p == nullptr) {
            break;
        }
        v = (v << 6U) | static_cast<unsigned>(p - b64);
        bits += 6;
        if (bits >= 8) {
            bits -= 8;
            out.push_back(static_cast<unsigned char>((v >> static_cast<unsigned>(bits)) & 255U));
        }
    }
    return out;
}
size_t base64_decode(std::string_view s, void* data, size_t max_size)
{
    auto r = base64_decode(s, 0);
    const auto n = std::min(max_size, r.size());
    std::memcpy(data, r.data(), n);
    return n;
}
std::string base64_decode_to_string(std::string_view s, size_t offset)
{
    auto r = base64_decode(s, offset);
    return {r.begin(), r.end()};
}
}  // namespace gmlc::utilities
