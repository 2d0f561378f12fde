#include "toml.hpp"

#include <cctype>
#include <cstdlib>
#include <fstream>
#include <sstream>
namespace toml {
namespace {
    struct P {
        const std::string& s;
        size_t i{0};
        [[noreturn]] void fail(const char* m) { throw exception(std::string("[error] toml: ") + m); }
        void ws(bool nl)
        {
            while (i < s.size()) {
                if (s[i] == '#') {
                    while (i < s.size() && s[i] != '\n') {
                        ++i;
                    }
                } else if (s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || (nl && s[i] == '\n')) {
                    ++i;
                } else {
                    break;
                }
            }
        }
        std::string str()
        {
            const char q = s[i++];
            std::string r;
            while (true) {
                if (i >= s.size() || s[i] == '\n') {
                    fail("unterminated string");
                }
                if (s[i] == q) {
                    ++i;
                    return r;
                }
                if (s[i] == '\\' && q == '"') {
                    ++i;
                    if (i >= s.size()) {
                        fail("bad escape");
                    }
                    switch (s[i]) {
                        case 'n': r.push_back('\n'); break;
                        case 't': r.push_back('\t'); break;
                        case 'r': r.push_back('\r'); break;
                        default: r.push_back(s[i]);
                    }
                    ++i;
                    continue;
                }
                r.push_back(s[i++]);
            }
        }
        std::string key()
        {
            ws(false);
            if (i < s.size() && (s[i] == '"' || s[i] == '\'')) {
                return str();
            }
            std::string r;
            while (i < s.size() &&
                   (std::isalnum(static_cast<unsigned char>(s[i])) || s[i] == '_' || s[i] == '-')) {
                r.push_back(s[i++]);
            }
            if (r.empty()) {
                fail("expected key");
            }
            return r;
        }
        value val()
        {
            ws(false);
            if (i >= s.size()) {
                fail("missing value");
            }
            const char c = s[i];
            if (c == '"' || c == '\'') {
                return value(str());
            }
            if (c == '[') {
                ++i;
                array a;
                while (true) {
                    ws(true);
                    if (i >= s.size()) {
                        fail("unterminated array");
                    }
                    if (s[i] == ']') {
                        ++i;
                        return value(std::move(a));
                    }
                    a.push_back(val());
                    ws(true);
                    if (i < s.size() && s[i] == ',') {
                        ++i;
                    } else if (i < s.size() && s[i] != ']') {
                        fail("array separator");
                    }
                }
            }
            if (c == '{') {
                ++i;
                table t;
                while (true) {
                    ws(true);
                    if (i >= s.size()) {
                        fail("unterminated table");
                    }
                    if (s[i] == '}') {
                        ++i;
                        return value(std::move(t));
                    }
                    auto k = key();
                    ws(false);
                    if (i >= s.size() || s[i] != '=') {
                        fail("expected =");
                    }
                    ++i;
                    t[k] = val();
                    ws(true);
                    if (i < s.size() && s[i] == ',') {
                        ++i;
                    }
                }
            }
            std::string w;
            while (i < s.size() && std::string(",]} \t\r\n#").find(s[i]) == std::string::npos) {
                w.push_back(s[i++]);
            }
            if (w == "true" || w == "false") {
                return value(w == "true");
            }
            std::string n;
            for (char ch : w) {
                if (ch != '_') {
                    n.push_back(ch);
                }
            }
            char* e = nullptr;
            if (n.find_first_of(".eEin") == std::string::npos) {
                auto v = std::strtoll(n.c_str(), &e, 10);
                if (!n.empty() && *e == '\0') {
                    return value(static_cast<std::int64_t>(v));
                }
            } else {
                auto v = std::strtod(n.c_str(), &e);
                if (*e == '\0') {
                    return value(v);
                }
            }
            fail("bad value");
        }
    };
}  // namespace
value parse(std::istream& is, const std::string&)
{
    std::stringstream ss;
    ss << is.rdbuf();
    const std::string text = ss.str();
    P p{text};
    value root{table{}};
    value* cur = &root;
    while (true) {
        p.ws(true);
        if (p.i >= text.size()) {
            break;
        }
        if (text[p.i] == '[') {
            const bool arr = p.i + 1 < text.size() && text[p.i + 1] == '[';
            p.i += arr ? 2 : 1;
            cur = &root;
            while (true) {
                auto k = p.key();
                p.ws(false);
                const bool more = p.i < text.size() && text[p.i] == '.';
                auto& slot = (*cur)[k];
                if (arr && !more) {
                    if (slot.is_empty()) {
                        slot = value(array{});
                    }
                    slot.as_array().push_back(value(table{}));
                    cur = &slot.as_array().back();
                } else {
                    if (slot.is_empty()) {
                        slot = value(table{});
                    }
                    cur = slot.is_array() ? &slot.as_array().back() : &slot;
                }
                if (!more) {
                    break;
                }
                ++p.i;
            }
            p.ws(false);
            if (p.i >= text.size() || text[p.i] != ']') {
                p.fail("expected ]");
            }
            p.i += arr ? 2 : 1;
            continue;
        }
        value* tgt = cur;
        auto k = p.key();
        p.ws(false);
        while (p.i < text.size() && text[p.i] == '.') {
            ++p.i;
            auto& slot = (*tgt)[k];
            if (slot.is_empty()) {
                slot = value(table{});
            }
            tgt = &slot;
            k = p.key();
            p.ws(false);
        }
        if (p.i >= text.size() || text[p.i] != '=') {
            p.fail("expected =");
        }
        ++p.i;
        (*tgt)[k] = p.val();
        p.ws(false);
        if (p.i < text.size() && text[p.i] != '\n') {
            p.fail("trailing characters");
        }
    }
    return root;
}
value parse(const std::string& fileName)
{
    std::ifstream f(fileName);
    if (!f) {
        throw exception("cannot open " + fileName);
    }
    return parse(f, fileName);
}
}  // namespace toml

namespace toml {
std::ostream& operator<<(std::ostream& os, const value& v)
{
    switch (v.type()) {
        case value_t::boolean:
            return os << (v.as_boolean() ? "true" : "false");
        case value_t::integer:
            return os << v.as_integer();
        case value_t::floating:
            return os << v.as_floating();
        case value_t::string:
            return os << '"' << v.as_string() << '"';
        case value_t::array: {
            os << '[';
            const char* sep = "";
            for (const auto& e : v.as_array()) {
                os << sep << e;
                sep = ", ";
            }
            return os << ']';
        }
        case value_t::table: {
            os << '{';
            const char* sep = "";
            for (const auto& e : v.as_table()) {
                os << sep << e.first << " = " << e.second;
                sep = ", ";
            }
            return os << '}';
        }
        default:
            return os;
    }
}
}  // namespace toml
