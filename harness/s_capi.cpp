// The C interface: federates driven through it alone (C36)
#include "fed.hpp"

#include "helics/shared_api_library/MessageFederate.h"
#include "helics/shared_api_library/ValueFederate.h"
#include "helics/shared_api_library/helicsCore.h"
#include "helics/shared_api_library/helicsData.h"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <set>

namespace {
using chk::flip;
using chk::pick;

constexpr int64_t MS = 1'000'000;
constexpr unsigned char GUARD = 0xA7;

/** reading the bytes of an update leaves the typed accessors at an older value: a class of its own */
bool afterRaw = false;
std::string cls(const char* c) { return afterRaw ? "stale-after-raw" : c; }

/** a caller's buffer with guards around it */
struct Guarded {
    std::vector<unsigned char> mem;
    size_t size;
    static constexpr size_t PAD = 24;
    explicit Guarded(size_t n): mem(n + 2 * PAD, GUARD), size(n) {}
    unsigned char* data() { return mem.data() + PAD; }
    char* text() { return reinterpret_cast<char*>(data()); }
    void check(const char* call)
    {
        for (size_t k = 0; k < PAD; ++k) {
            if (mem[k] != GUARD || mem[PAD + size + k] != GUARD) {
                chk::fail("outside-buffer", "%s wrote outside a buffer of %zu bytes", call, size);
            }
        }
    }
};
/** the same for doubles (alignment) */
struct GuardedD {
    std::vector<double> mem;
    size_t size;
    static constexpr double G = -77777.25;
    explicit GuardedD(size_t n): mem(n + 8, G), size(n) {}
    double* data() { return mem.data() + 4; }
    void check(const char* call)
    {
        for (size_t k = 0; k < 4; ++k) {
            if (mem[k] != G || mem[4 + size + k] != G) {
                chk::fail("outside-buffer", "%s wrote outside a buffer of %zu doubles", call, size);
            }
        }
    }
};

struct Value {
    double d{0}, im{0};
    int64_t i{0};
    bool b{false};
    char c{'a'};
    std::string s;
    std::vector<double> v;
};

struct CInterface {
    enum Kind { DOUBLE, INTEGER, BOOLEAN, CHAR, TIME, COMPLEX, STRING, VECTOR, COMPLEX_VECTOR, NAMED_POINT, RAW, KINDS };
    static HelicsDataTypes dataType(Kind k)
    {
        static const HelicsDataTypes t[] = {HELICS_DATA_TYPE_DOUBLE,
                                            HELICS_DATA_TYPE_INT,
                                            HELICS_DATA_TYPE_BOOLEAN,
                                            HELICS_DATA_TYPE_CHAR,
                                            HELICS_DATA_TYPE_TIME,
                                            HELICS_DATA_TYPE_COMPLEX,
                                            HELICS_DATA_TYPE_STRING,
                                            HELICS_DATA_TYPE_VECTOR,
                                            HELICS_DATA_TYPE_COMPLEX_VECTOR,
                                            HELICS_DATA_TYPE_NAMED_POINT,
                                            HELICS_DATA_TYPE_RAW};
        return t[k];
    }
    static const char* kindName(int k)
    {
        static const char* t[] = {"double", "int", "bool", "char", "time", "complex", "string", "vector", "complex_vector", "named_point", "raw"};
        return t[k];
    }
    struct Pub {
        Kind kind{DOUBLE};
        int owner{0};
        bool global{true};
        std::string name;  // full name
        std::map<int, Value> at;  // step: value
        std::map<int, int> how;  // step: how it is published
    };
    struct In {
        int pub{0};
        int owner{0};
        int how{0};
    };
    struct Msg {
        int step{0}, from{0}, to{0};
        std::string data;
        int64_t at{-1};  // ns, -1 none
        int way{0};
        bool binary{false};
        int got{0};
    };
    struct Ep {
        int owner{0};
        bool global{true};
        std::string name;
        int def{-1};  // default destination
    };
    int n{0}, steps{0};
    int64_t period{1000};  // ms
    fx::Deployment d;
    std::vector<Pub> pubs;
    std::vector<In> ins;
    std::vector<Ep> eps;
    std::vector<Msg> msgs;
    std::vector<int> kindOf;  // federate: 0 combination, 1 value, 2 message

    static double number() { return (static_cast<double>(pick(2'000'001)) - 1e6) / 64.0; }
    static std::string text(size_t max)
    {
        std::string s;
        const auto len = flip(1, 4) ? pick(3) : pick(max + 1);
        for (uint64_t k = 0; k < len; ++k) {
            s += static_cast<char>('!' + pick(90));
        }
        return s;
    }
    static Value value(Kind k)
    {
        Value v;
        v.d = number();
        v.im = number();
        v.i = static_cast<int64_t>(pick(1ULL << 62U)) - (int64_t{1} << 61);
        if (flip(1, 3)) {
            v.i = static_cast<int64_t>(pick(2000)) - 1000;
        }
        v.b = flip(1, 2);
        v.c = static_cast<char>('A' + pick(50));
        if (k == STRING) {
            v.s = text(flip(1, 4) ? 400 : 70);
        } else if (k == NAMED_POINT) {
            v.s = "p" + text(60);
        } else if (k == RAW) {
            v.s = "r";
            const auto len = pick(200);
            for (uint64_t q = 0; q < len; ++q) {
                v.s += static_cast<char>(pick(256));
            }
        }
        if (k == VECTOR || k == COMPLEX_VECTOR) {
            const auto len = (1 + pick(flip(1, 3) ? 40 : 4)) * (k == COMPLEX_VECTOR ? 2 : 1);
            for (uint64_t q = 0; q < len; ++q) {
                v.v.push_back(number());
            }
        }
        return v;
    }
    void generate()
    {
        n = 2 + static_cast<int>(pick(3));
        d = fx::pickDeployment(n, fx::ANY, 3);
        steps = 3 + static_cast<int>(pick(6));
        period = flip(1, 2) ? 1000 : 1 + static_cast<int64_t>(pick(700));

        for (int f = 0; f < n; ++f) {
            kindOf.push_back(flip(1, 4) ? 1 + static_cast<int>(pick(2)) : 0);
        }
        for (int f = 0; f < n; ++f) {
            if (kindOf[static_cast<size_t>(f)] != 2) {
                const auto count = pick(5);
                for (uint64_t k = 0; k < count; ++k) {
                    Pub p;
                    p.kind = static_cast<Kind>(pick(KINDS));
                    p.owner = f;
                    p.global = flip(1, 2);
                    p.name = (p.global ? "" : d.fedName(f) + "/") + "pub" + std::to_string(f) + "_" + std::to_string(k);
                    for (int s = 0; s <= steps; ++s) {
                        if (!flip(1, 3)) {
                            p.at[s] = value(p.kind);
                            p.how[s] = static_cast<int>(pick(2));
                        }
                    }
                    pubs.push_back(p);
                }
            }
            if (kindOf[static_cast<size_t>(f)] != 1) {
                const auto count = pick(3);
                for (uint64_t k = 0; k < count; ++k) {
                    Ep e;
                    e.owner = f;
                    e.global = flip(1, 2);
                    e.name = (e.global ? "" : d.fedName(f) + "/") + "ep" + std::to_string(f) + "_" + std::to_string(k);
                    eps.push_back(e);
                }
            }
        }
        for (size_t p = 0; p < pubs.size(); ++p) {
            for (int f = 0; f < n; ++f) {
                if (f != pubs[p].owner && kindOf[static_cast<size_t>(f)] != 2 && !flip(1, 3)) {
                    ins.push_back({static_cast<int>(p), f, static_cast<int>(pick(3))});
                }
            }
        }
        if (!eps.empty()) {
            const auto count = pick(25);
            for (uint64_t k = 0; k < count; ++k) {
                Msg m;
                m.step = static_cast<int>(pick(static_cast<uint64_t>(steps)));
                m.from = static_cast<int>(pick(eps.size()));
                m.to = static_cast<int>(pick(eps.size()));
                m.data = "#" + std::to_string(k) + "#";
                if (flip(1, 3)) {
                    m.at = static_cast<int64_t>(pick(static_cast<uint64_t>(period) * static_cast<uint64_t>(steps + 1) * 2)) * MS / 2;
                }
                m.way = static_cast<int>(pick(6));
                if (m.way == 2 || m.way == 3) {
                    auto& def = eps[static_cast<size_t>(m.from)].def;
                    if (def < 0) {
                        def = m.to;
                    }
                    m.to = def;
                }
                // the ways of 0 and 3 take C strings; so does one of the others
                m.binary = m.way != 0 && m.way != 3 && flip(1, 2);
                m.data += m.binary ? fx::payload("x", static_cast<size_t>(flip(1, 4) ? pick(400) : pick(80))) : text(flip(1, 4) ? 400 : 80);
                msgs.push_back(m);
            }
        }
    }
    [[nodiscard]] std::string str() const
    {
        std::string s = d.str() + " " + std::to_string(steps) + " steps of " + std::to_string(period) + " ms |";
        for (auto& p : pubs) {
            s += " " + p.name + "@f" + std::to_string(p.owner) + ":" + kindName(p.kind) + "(" + std::to_string(p.at.size()) + ")";
        }
        s += " |";
        for (auto& i : ins) {
            s += " f" + std::to_string(i.owner) + "<-" + pubs[static_cast<size_t>(i.pub)].name;
        }
        s += " | " + std::to_string(eps.size()) + " endpoints " + std::to_string(msgs.size()) + " messages";
        return s;
    }

    static void ok(const HelicsError& e, const std::string& what)
    {
        if (e.error_code != 0) {
            chk::fail("error", "%s: error %d '%s'", what.c_str(), e.error_code, e.message != nullptr ? e.message : "");
        }
    }
    static bool same(double a, double b) { return a == b; }

    // ---- publishing ----
    static void publish(HelicsPublication p, const Pub& pub, const Value& v, int how, HelicsError* err)
    {
        if (how == 1) {
            auto* buf = helicsCreateDataBuffer(static_cast<int>(pick(100)));
            int32_t size = 0;
            switch (pub.kind) {
                case DOUBLE:
                    size = helicsDataBufferFillFromDouble(buf, v.d);
                    if (helicsDataBufferToDouble(buf) != v.d || helicsDataBufferType(buf) != HELICS_DATA_TYPE_DOUBLE) {
                        chk::fail("buffer-conversion", "double %g comes out of a data buffer as %g", v.d, helicsDataBufferToDouble(buf));
                    }
                    break;
                case INTEGER:
                    size = helicsDataBufferFillFromInteger(buf, v.i);
                    if (helicsDataBufferToInteger(buf) != v.i || helicsDataBufferType(buf) != HELICS_DATA_TYPE_INT) {
                        chk::fail("buffer-conversion", "integer %lld comes out of a data buffer as %lld", static_cast<long long>(v.i), static_cast<long long>(helicsDataBufferToInteger(buf)));
                    }
                    break;
                case COMPLEX:
                    size = helicsDataBufferFillFromComplex(buf, v.d, v.im);
                    break;
                case VECTOR:
                    size = helicsDataBufferFillFromVector(buf, v.v.data(), static_cast<int>(v.v.size()));
                    break;
                case COMPLEX_VECTOR:
                    size = helicsDataBufferFillFromComplexVector(buf, v.v.data(), static_cast<int>(v.v.size() / 2));
                    break;
                case STRING:
                    size = flip(1, 2) ? helicsDataBufferFillFromString(buf, v.s.c_str()) : helicsDataBufferFillFromRawString(buf, v.s.data(), static_cast<int>(v.s.size()));
                    break;
                case NAMED_POINT:
                    size = helicsDataBufferFillFromNamedPoint(buf, v.s.c_str(), v.d);
                    break;
                default:
                    break;
            }
            if (size > 0) {
                if (size != helicsDataBufferSize(buf)) {
                    chk::fail("buffer-size", "a filled data buffer has %d bytes, the call said %d", helicsDataBufferSize(buf), size);
                }
                fromBuffer(buf, pub, v, "filled data buffer");
                if (flip(1, 2)) {
                    auto* copy = helicsDataBufferClone(buf);
                    helicsDataBufferFillFromInteger(buf, 5);
                    helicsDataBufferFree(buf);
                    buf = copy;
                    fromBuffer(buf, pub, v, "cloned data buffer");
                }
                helicsPublicationPublishDataBuffer(p, buf, err);
                helicsDataBufferFree(buf);
                return;
            }
            helicsDataBufferFree(buf);
        }
        switch (pub.kind) {
            case DOUBLE:
                helicsPublicationPublishDouble(p, v.d, err);
                break;
            case INTEGER:
                helicsPublicationPublishInteger(p, v.i, err);
                break;
            case BOOLEAN:
                helicsPublicationPublishBoolean(p, v.b ? HELICS_TRUE : HELICS_FALSE, err);
                break;
            case CHAR:
                helicsPublicationPublishChar(p, v.c, err);
                break;
            case TIME:
                helicsPublicationPublishTime(p, v.d, err);
                break;
            case COMPLEX:
                helicsPublicationPublishComplex(p, v.d, v.im, err);
                break;
            case STRING:
                helicsPublicationPublishString(p, v.s.c_str(), err);
                break;
            case VECTOR:
                helicsPublicationPublishVector(p, v.v.data(), static_cast<int>(v.v.size()), err);
                break;
            case COMPLEX_VECTOR:
                helicsPublicationPublishComplexVector(p, v.v.data(), static_cast<int>(v.v.size() / 2), err);
                break;
            case NAMED_POINT:
                helicsPublicationPublishNamedPoint(p, v.s.c_str(), v.d, err);
                break;
            default:
                helicsPublicationPublishBytes(p, v.s.data(), static_cast<int>(v.s.size()), err);
                break;
        }
    }
    static size_t room(size_t need)
    {
        switch (pick(4)) {
            case 0:
                return need;
            case 1:
                return 1 + pick(need + 1);
            case 2:
                return need + 1;
            default:
                return need + 1 + pick(40);
        }
    }
    static void text(const std::string& got, const std::string& want, const char* call, const std::string& name)
    {
        if (got != want) {
            chk::fail(cls("value"), "%s of %s gives '%.60s' (%zu bytes), published '%.60s' (%zu)", call, name.c_str(), got.c_str(), got.size(), want.c_str(), want.size());
        }
    }
    static void numbers(const double* got, int count, const std::vector<double>& want, size_t expect, const char* call, const std::string& name)
    {
        if (static_cast<size_t>(count) != expect) {
            chk::fail(cls("value-size"), "%s of %s gives %d elements, expected %zu", call, name.c_str(), count, expect);
        }
        const size_t m = call[0] == 'c' ? expect * 2 : expect;
        for (size_t k = 0; k < m; ++k) {
            if (!same(got[k], want[k])) {
                chk::fail(cls("value"), "%s of %s: element %zu is %g, published %g", call, name.c_str(), k, got[k], want[k]);
            }
        }
    }
    static void fromBuffer(HelicsDataBuffer buf, const Pub& p, const Value& v, const char* what)
    {
        if (helicsDataBufferIsValid(buf) == HELICS_FALSE) {
            chk::fail("buffer", "%s of %s is not valid", what, p.name.c_str());
        }
        switch (p.kind) {
            case DOUBLE:
                if (!same(helicsDataBufferToDouble(buf), v.d)) {
                    chk::fail(cls("value"), "%s of %s holds %g, not %g", what, p.name.c_str(), helicsDataBufferToDouble(buf), v.d);
                }
                break;
            case INTEGER:
                if (helicsDataBufferToInteger(buf) != v.i) {
                    chk::fail(cls("value"), "%s of %s holds %lld, not %lld", what, p.name.c_str(), static_cast<long long>(helicsDataBufferToInteger(buf)), static_cast<long long>(v.i));
                }
                break;
            case COMPLEX: {
                double re = 0, im = 0;
                helicsDataBufferToComplex(buf, &re, &im);
                auto o = helicsDataBufferToComplexObject(buf);
                if (!same(re, v.d) || !same(im, v.im) || !same(o.real, v.d) || !same(o.imag, v.im)) {
                    chk::fail(cls("value"), "%s of %s holds %g,%g not %g,%g", what, p.name.c_str(), re, im, v.d, v.im);
                }
                break;
            }
            case STRING: {
                const auto size = helicsDataBufferStringSize(buf);
                if (size != static_cast<int>(v.s.size()) + 1) {
                    chk::fail(cls("value-size"), "%s of %s: string size %d for %zu characters", what, p.name.c_str(), size, v.s.size());
                }
                Guarded g(room(v.s.size() + 1));
                int len = -1;
                helicsDataBufferToString(buf, g.text(), static_cast<int>(g.size), &len);
                g.check("helicsDataBufferToString");
                const auto want = v.s.substr(0, g.size - 1);
                if (len != static_cast<int>(want.size()) || g.data()[want.size()] != 0) {
                    chk::fail(cls("value-size"), "%s of %s: %d characters in %zu bytes for %zu", what, p.name.c_str(), len, g.size, v.s.size());
                }
                text(std::string(g.text()), want, what, p.name);
                Guarded r(room(v.s.size()));
                if (r.size > 0) {
                    helicsDataBufferToRawString(buf, r.text(), static_cast<int>(r.size), &len);
                    r.check("helicsDataBufferToRawString");
                    text(std::string(r.text(), static_cast<size_t>(std::max(len, 0))), v.s.substr(0, r.size), "raw string", p.name);
                }
                break;
            }
            case VECTOR: {
                const auto size = helicsDataBufferVectorSize(buf);
                if (size != static_cast<int>(v.v.size())) {
                    chk::fail(cls("value-size"), "%s of %s: vector size %d for %zu", what, p.name.c_str(), size, v.v.size());
                }
                GuardedD g(room(v.v.size()));
                int len = -1;
                helicsDataBufferToVector(buf, g.data(), static_cast<int>(g.size), &len);
                g.check("helicsDataBufferToVector");
                numbers(g.data(), len, v.v, std::min(g.size, v.v.size()), "vector from buffer", p.name);
                break;
            }
            case COMPLEX_VECTOR: {
                const auto m = v.v.size() / 2;
                const auto r = room(m);
                GuardedD g(2 * r);
                int len = -1;
                helicsDataBufferToComplexVector(buf, g.data(), static_cast<int>(r), &len);
                g.check("helicsDataBufferToComplexVector");
                numbers(g.data(), len, v.v, std::min(r, m), "complex vector from buffer", p.name);
                break;
            }
            case NAMED_POINT: {
                Guarded g(room(v.s.size() + 1));
                int len = -1;
                double val = 0;
                helicsDataBufferToNamedPoint(buf, g.text(), static_cast<int>(g.size), &len, &val);
                g.check("helicsDataBufferToNamedPoint");
                text(std::string(g.text(), static_cast<size_t>(std::max(len, 0))), v.s.substr(0, g.size), what, p.name);
                if (!same(val, v.d)) {
                    chk::fail(cls("value"), "%s of %s holds %g, not %g", what, p.name.c_str(), val, v.d);
                }
                break;
            }
            case BOOLEAN:
                if ((helicsDataBufferToBoolean(buf) != HELICS_FALSE) != v.b) {
                    chk::fail(cls("value"), "%s of %s is not %d", what, p.name.c_str(), v.b ? 1 : 0);
                }
                break;
            default:
                break;
        }
    }
    // ---- reading ----
    static void read(HelicsInput in, const Pub& p, const Value& v)
    {
        HelicsError err = helicsErrorInitialize();
        switch (p.kind) {
            case DOUBLE: {
                const auto got = helicsInputGetDouble(in, &err);
                if (!same(got, v.d)) {
                    chk::fail(cls("value"), "%s is %g, published %g", p.name.c_str(), got, v.d);
                }
                break;
            }
            case INTEGER: {
                const auto got = helicsInputGetInteger(in, &err);
                if (got != v.i) {
                    chk::fail(cls("value"), "%s is %lld, published %lld", p.name.c_str(), static_cast<long long>(got), static_cast<long long>(v.i));
                }
                break;
            }
            case BOOLEAN:
                if ((helicsInputGetBoolean(in, &err) != HELICS_FALSE) != v.b) {
                    chk::fail(cls("value"), "%s is not %d", p.name.c_str(), v.b ? 1 : 0);
                }
                break;
            case CHAR: {
                const char got = helicsInputGetChar(in, &err);
                if (got != v.c) {
                    chk::fail(cls("value"), "%s is '%c', published '%c'", p.name.c_str(), got, v.c);
                }
                break;
            }
            case TIME: {
                const double got = helicsInputGetTime(in, &err);
                if (std::abs(got - v.d) > 2e-9) {
                    chk::fail(cls("value"), "%s is %.9f, published %.9f", p.name.c_str(), got, v.d);
                }
                break;
            }
            case COMPLEX: {
                double re = 0, im = 0;
                helicsInputGetComplex(in, &re, &im, &err);
                auto o = helicsInputGetComplexObject(in, &err);
                if (!same(re, v.d) || !same(im, v.im) || !same(o.real, v.d) || !same(o.imag, v.im)) {
                    chk::fail(cls("value"), "%s is %g,%g, published %g,%g", p.name.c_str(), re, im, v.d, v.im);
                }
                break;
            }
            case STRING: {
                const auto size = helicsInputGetStringSize(in);
                if (size != static_cast<int>(v.s.size()) + 1) {
                    chk::fail(cls("value-size"), "%s: string size %d for %zu characters", p.name.c_str(), size, v.s.size());
                }
                Guarded g(room(v.s.size() + 1));
                int len = -1;
                helicsInputGetString(in, g.text(), static_cast<int>(g.size), &len, &err);
                g.check("helicsInputGetString");
                const auto want = v.s.substr(0, g.size - 1);
                if (len != static_cast<int>(want.size()) + 1 || g.data()[want.size()] != 0) {
                    chk::fail(cls("value-size"), "%s: length %d in a buffer of %zu for %zu characters", p.name.c_str(), len, g.size, v.s.size());
                }
                text(std::string(g.text()), want, "helicsInputGetString", p.name);
                break;
            }
            case VECTOR: {
                const auto size = helicsInputGetVectorSize(in);
                if (size != static_cast<int>(v.v.size())) {
                    chk::fail(cls("value-size"), "%s: vector size %d for %zu", p.name.c_str(), size, v.v.size());
                }
                GuardedD g(room(v.v.size()));
                int len = -1;
                helicsInputGetVector(in, g.data(), static_cast<int>(g.size), &len, &err);
                g.check("helicsInputGetVector");
                numbers(g.data(), len, v.v, std::min(g.size, v.v.size()), "helicsInputGetVector", p.name);
                break;
            }
            case COMPLEX_VECTOR: {
                const auto m = v.v.size() / 2;
                const auto r = room(m);
                GuardedD g(2 * r);
                int len = -1;
                helicsInputGetComplexVector(in, g.data(), static_cast<int>(r), &len, &err);
                g.check("helicsInputGetComplexVector");
                numbers(g.data(), len, v.v, std::min(r, m), "complex helicsInputGetComplexVector", p.name);
                break;
            }
            case NAMED_POINT: {
                Guarded g(room(v.s.size() + 1));
                int len = -1;
                double val = 0;
                helicsInputGetNamedPoint(in, g.text(), static_cast<int>(g.size), &len, &val, &err);
                g.check("helicsInputGetNamedPoint");
                const auto want = v.s.substr(0, g.size - 1);
                if (len != static_cast<int>(want.size()) + 1 || g.data()[want.size()] != 0) {
                    chk::fail(cls("value-size"), "%s: name length %d in a buffer of %zu for %zu characters", p.name.c_str(), len, g.size, v.s.size());
                }
                text(std::string(g.text()), want, "helicsInputGetNamedPoint", p.name);
                if (!same(val, v.d)) {
                    chk::fail(cls("value"), "%s is %g, published %g", p.name.c_str(), val, v.d);
                }
                break;
            }
            default: {
                const auto size = helicsInputGetByteCount(in);
                if (size != static_cast<int>(v.s.size())) {
                    chk::fail(cls("value-size"), "%s: %d bytes, published %zu", p.name.c_str(), size, v.s.size());
                }
                Guarded g(room(v.s.size()));
                int len = -1;
                helicsInputGetBytes(in, g.data(), static_cast<int>(g.size), &len, &err);
                g.check("helicsInputGetBytes");
                text(std::string(g.text(), static_cast<size_t>(std::max(len, 0))), v.s.substr(0, g.size), "helicsInputGetBytes", p.name);
                break;
            }
        }
        ok(err, "reading " + p.name);
        chk::count("reach.values_read");
    }
    /** whether an input shows a value, told from one of its accessors */
    static bool is(HelicsInput in, const Pub& p, const Value& v)
    {
        double nums[200];
        char chars[1000];
        int len = 0;
        switch (p.kind) {
            case DOUBLE:
                return helicsInputGetDouble(in, nullptr) == v.d;
            case INTEGER:
                return helicsInputGetInteger(in, nullptr) == v.i;
            case BOOLEAN:
                return (helicsInputGetBoolean(in, nullptr) != HELICS_FALSE) == v.b;
            case CHAR:
                return helicsInputGetChar(in, nullptr) == v.c;
            case TIME:
                return std::abs(helicsInputGetTime(in, nullptr) - v.d) < 2e-9;
            case COMPLEX:
                return helicsInputGetComplexObject(in, nullptr).real == v.d;
            case STRING:
                helicsInputGetString(in, chars, 1000, &len, nullptr);
                return v.s == chars;
            case VECTOR:
                helicsInputGetVector(in, nums, 200, &len, nullptr);
                return len > 0 && nums[0] == v.v[0];
            case COMPLEX_VECTOR:
                helicsInputGetComplexVector(in, nums, 100, &len, nullptr);
                return len > 0 && nums[0] == v.v[0];
            case NAMED_POINT:
                helicsInputGetNamedPoint(in, chars, 1000, &len, &nums[0], nullptr);
                return nums[0] == v.d;
            default:
                helicsInputGetBytes(in, chars, 1000, &len, nullptr);
                return v.s == std::string(chars, static_cast<size_t>(len));
        }
    }
    // ---- misuse: an error object, and nothing else ----
    static void invalid(const HelicsError& e, const char* call)
    {
        if (e.error_code != HELICS_ERROR_INVALID_OBJECT) {
            chk::fail("misuse", "%s on an invalid object: error %d '%s'", call, e.error_code, e.message != nullptr ? e.message : "");
        }
        chk::count("reach.misuse");
    }
    static void misuse(HelicsFederate fed, HelicsPublication pub, HelicsInput in, HelicsEndpoint ep, HelicsMessage m)
    {
        HelicsError err = helicsErrorInitialize();
        Guarded g(8);
        GuardedD gd(2);
        int len = 0;
        void* wrong[] = {nullptr, fed, pub, in, ep, m};
        auto* w = wrong[pick(6)];
        switch (pick(12)) {
            case 0:
                helicsPublicationPublishDouble(w == pub ? nullptr : w, 1.0, &err);
                invalid(err, "helicsPublicationPublishDouble");
                break;
            case 1:
                helicsPublicationPublishString(w == pub ? nullptr : w, "no", &err);
                invalid(err, "helicsPublicationPublishString");
                break;
            case 2:
                helicsInputGetString(w == in ? nullptr : w, g.text(), 8, &len, &err);
                invalid(err, "helicsInputGetString");
                break;
            case 3:
                helicsInputGetVector(w == in ? nullptr : w, gd.data(), 2, &len, &err);
                invalid(err, "helicsInputGetVector");
                break;
            case 4:
                helicsInputGetBytes(w == in ? nullptr : w, g.data(), 8, &len, &err);
                invalid(err, "helicsInputGetBytes");
                break;
            case 5:
                helicsEndpointSendBytesTo(w == ep ? nullptr : w, "no", 2, "nowhere", &err);
                invalid(err, "helicsEndpointSendBytesTo");
                break;
            case 6:
                helicsFederateRequestTime(w == fed ? nullptr : w, 1e6, &err);
                invalid(err, "helicsFederateRequestTime");
                break;
            case 7:
                if (helicsEndpointHasMessage(w == ep ? nullptr : w) != HELICS_FALSE || helicsEndpointGetMessage(w == ep ? nullptr : w) != nullptr) {
                    chk::fail("misuse", "an invalid endpoint has a message");
                }
                break;
            case 8:
                if (helicsInputIsValid(w == in ? nullptr : w) != HELICS_FALSE || helicsPublicationIsValid(w == pub ? nullptr : w) != HELICS_FALSE ||
                    helicsEndpointIsValid(w == ep ? nullptr : w) != HELICS_FALSE || helicsFederateIsValid(w == fed ? nullptr : w) != HELICS_FALSE) {
                    chk::fail("misuse", "a wrong handle is called valid");
                }
                break;
            case 9:
                // an error is already set: nothing may happen
                err.error_code = HELICS_ERROR_OTHER;
                if (pub != nullptr) {
                    helicsPublicationPublishString(pub, "poison", &err);
                    helicsPublicationPublishDouble(pub, 4.25e17, &err);
                }
                if (ep != nullptr) {
                    helicsEndpointSendBytesTo(ep, "poison", 6, helicsEndpointGetName(ep), &err);
                }
                helicsFederateRequestTime(fed, 1e6, &err);
                if (err.error_code != HELICS_ERROR_OTHER) {
                    chk::fail("misuse", "calls with an error set changed it to %d", err.error_code);
                }
                helicsErrorClear(&err);
                if (err.error_code != 0) {
                    chk::fail("misuse", "helicsErrorClear left %d", err.error_code);
                }
                break;
            case 10:
                helicsMessageGetBytes(nullptr, g.data(), 8, &len, &err);
                if (err.error_code == 0) {
                    chk::fail("misuse", "helicsMessageGetBytes of no message is no error");
                }
                break;
            default: {
                auto* x = helicsFederateGetInput(fed, "there is no such input", &err);
                if (x != nullptr) {
                    chk::fail("misuse", "an input nobody registered is found");
                }
                break;
            }
        }
        g.check("a call on an invalid object");
        gd.check("a call on an invalid object");
    }

    // ---- messages ----
    void send(HelicsFederate fed, HelicsEndpoint ep, const Msg& m) const
    {
        HelicsError err = helicsErrorInitialize();
        auto& to = eps[static_cast<size_t>(m.to)].name;
        const double at = fx::sec(m.at);
        const int len = static_cast<int>(m.data.size());
        switch (m.way) {
            case 0:
                if (m.at < 0) {
                    helicsEndpointSendStringTo(ep, m.data.c_str(), to.c_str(), &err);
                } else {
                    helicsEndpointSendStringToAt(ep, m.data.c_str(), to.c_str(), at, &err);
                }
                break;
            case 1:
                if (m.at < 0) {
                    helicsEndpointSendBytesTo(ep, m.data.data(), len, to.c_str(), &err);
                } else {
                    helicsEndpointSendBytesToAt(ep, m.data.data(), len, to.c_str(), at, &err);
                }
                break;
            case 2:
                if (m.at < 0) {
                    helicsEndpointSendBytes(ep, m.data.data(), len, &err);
                } else {
                    helicsEndpointSendBytesAt(ep, m.data.data(), len, at, &err);
                }
                break;
            case 3:
                if (m.at < 0) {
                    helicsEndpointSendString(ep, m.data.c_str(), &err);
                } else {
                    helicsEndpointSendStringAt(ep, m.data.c_str(), at, &err);
                }
                break;
            default: {
                auto* x = flip(1, 2) ? helicsFederateCreateMessage(fed, &err) : helicsEndpointCreateMessage(ep, &err);
                ok(err, "creating a message");
                helicsMessageSetDestination(x, to.c_str(), &err);
                if (m.at >= 0) {
                    helicsMessageSetTime(x, at, &err);
                }
                if (flip(1, 3)) {
                    const auto cut = static_cast<int>(pick(m.data.size() + 1));
                    helicsMessageSetData(x, m.data.data(), cut, &err);
                    helicsMessageAppendData(x, m.data.data() + cut, len - cut, &err);
                } else if (!m.binary && flip(1, 2)) {
                    helicsMessageSetString(x, m.data.c_str(), &err);
                } else {
                    helicsMessageResize(x, len, &err);
                    std::memcpy(helicsMessageGetBytesPointer(x), m.data.data(), m.data.size());
                }
                ok(err, "filling a message");
                if (flip(1, 3)) {
                    auto* y = flip(1, 2) ? helicsMessageClone(x, &err) : helicsFederateCreateMessage(fed, &err);
                    helicsMessageCopy(x, y, &err);
                    ok(err, "copying a message");
                    helicsMessageSetString(x, "changed after it was copied", &err);
                    helicsMessageFree(x);
                    x = y;
                }
                if (helicsMessageGetByteCount(x) != len || std::strcmp(helicsMessageGetDestination(x), to.c_str()) != 0) {
                    chk::fail("message", "a message made of %d bytes has %d, to '%s'", len, helicsMessageGetByteCount(x), helicsMessageGetDestination(x));
                }
                if (m.way == 4) {
                    helicsEndpointSendMessage(ep, x, &err);
                    // the sender keeps its message
                    helicsMessageSetString(x, "changed after it was sent", &err);
                    if (flip(1, 2)) {
                        helicsMessageFree(x);
                    }
                } else {
                    helicsEndpointSendMessageZeroCopy(ep, x, &err);
                    if (helicsMessageIsValid(nullptr) != HELICS_FALSE) {
                        chk::fail("message", "no message is called valid");
                    }
                }
            }
        }
        ok(err, "sending " + m.data.substr(0, 10));
    }
    [[nodiscard]] std::string contents(HelicsMessage x) const
    {
        HelicsError err = helicsErrorInitialize();
        const auto size = static_cast<size_t>(helicsMessageGetByteCount(x));
        Guarded g(size + (flip(1, 2) ? pick(20) : 0));
        int len = -1;
        helicsMessageGetBytes(x, g.data(), static_cast<int>(g.size), &len, &err);
        ok(err, "helicsMessageGetBytes");
        g.check("helicsMessageGetBytes");
        if (static_cast<size_t>(len) != size) {
            chk::fail("message", "helicsMessageGetBytes gives %d bytes of %zu", len, size);
        }
        if (size > 1 && flip(1, 3)) {
            Guarded small(pick(size));
            helicsMessageGetBytes(x, small.data(), static_cast<int>(small.size), &len, &err);
            small.check("helicsMessageGetBytes");
            if (err.error_code != HELICS_ERROR_INSUFFICIENT_SPACE || len != 0) {
                chk::fail("message", "reading %zu bytes into %zu: error %d, %d bytes", size, small.size, err.error_code, len);
            }
        }
        std::string s(g.text(), size);
        if (flip(1, 2) && std::strcmp(s.c_str(), helicsMessageGetString(x)) != 0) {
            chk::fail("message", "the string of a message is not its bytes");
        }
        return s;
    }
    void receive(HelicsMessage x, int at, int step, bool byFederate)
    {
        const auto data = contents(x);
        int k = -1;
        if (std::sscanf(data.c_str(), "#%d#", &k) != 1 || k < 0 || k >= static_cast<int>(msgs.size()) || msgs[static_cast<size_t>(k)].data != data) {
            chk::fail("message", "%s received a message of %zu bytes nobody sent: %.50s", eps[static_cast<size_t>(at)].name.c_str(), data.size(), data.c_str());
        }
        auto& m = msgs[static_cast<size_t>(k)];
        if (chk::verbose()) {
            chk::trace("message %d arrived at step %d", k, step);
        }
        if (++m.got > 1) {
            chk::fail("message-twice", "message %d arrived twice", k);
        }
        const std::string original = helicsMessageGetOriginalSource(x);
        if (m.to != at || eps[static_cast<size_t>(m.to)].name != helicsMessageGetDestination(x) ||
            eps[static_cast<size_t>(m.from)].name != helicsMessageGetSource(x) ||
            (!original.empty() && eps[static_cast<size_t>(m.from)].name != original)) {
            chk::fail("message-address", "message %d from %s to %s arrived at %s: source %s, destination %s", k, eps[static_cast<size_t>(m.from)].name.c_str(), eps[static_cast<size_t>(m.to)].name.c_str(), eps[static_cast<size_t>(at)].name.c_str(), helicsMessageGetSource(x), helicsMessageGetDestination(x));
        }
        const int64_t due = std::max(m.at, static_cast<int64_t>(m.step) * period * MS);
        const double got = helicsMessageGetTime(x);
        if (std::abs(got - fx::sec(due)) > 1e-9) {
            chk::fail("message-time", "message %d sent at step %d for %lld ns has the time %.9f", k, m.step, static_cast<long long>(m.at), got);
        }
        const int first = firstStep(m), last = lastStep(m);
        if (step < first || step > last) {
            chk::fail("message-step", "message %d due at %lld ms arrived at step %d of %lld ms%s", k, static_cast<long long>(due / MS), step, static_cast<long long>(period), byFederate ? " (federate)" : "");
        }
        chk::count("reach.messages_read");
    }
    [[nodiscard]] int firstStep(const Msg& m) const
    {
        const int64_t due = std::max(m.at, static_cast<int64_t>(m.step) * period * MS);
        return static_cast<int>((due + period * MS - 1) / (period * MS));
    }
    /** what is due at the very time of a grant may come with the next one */
    [[nodiscard]] int lastStep(const Msg& m) const
    {
        const int64_t due = std::max(m.at, static_cast<int64_t>(m.step) * period * MS);
        return static_cast<int>(due / (period * MS)) + 1;
    }

    HelicsFederate create(int i) const
    {
        HelicsError err = helicsErrorInitialize();
        const auto fi = d.info(i);
        auto* info = helicsCreateFederateInfo();
        helicsFederateInfoSetCoreTypeFromString(info, d.type.c_str(), &err);
        helicsFederateInfoSetCoreName(info, fi.coreName.c_str(), &err);
        helicsFederateInfoSetCoreInitString(info, fi.coreInitString.c_str(), &err);
        helicsFederateInfoSetIntegerProperty(info, HELICS_PROPERTY_INT_LOG_LEVEL, HELICS_LOG_LEVEL_NO_PRINT, &err);
        helicsFederateInfoSetTimeProperty(info, HELICS_PROPERTY_TIME_PERIOD, static_cast<double>(period) * 1e-3, &err);
        helicsFederateInfoSetFlagOption(info, HELICS_FLAG_UNINTERRUPTIBLE, HELICS_TRUE, &err);
        ok(err, "federate info");
        if (flip(1, 2)) {
            auto* copy = helicsFederateInfoClone(info, &err);
            helicsFederateInfoSetCoreName(info, "not this core", &err);
            helicsFederateInfoFree(info);
            info = copy;
        }
        HelicsFederate fed = nullptr;
        const auto name = d.fedName(i);
        switch (kindOf[static_cast<size_t>(i)]) {
            case 1:
                fed = helicsCreateValueFederate(name.c_str(), info, &err);
                break;
            case 2:
                fed = helicsCreateMessageFederate(name.c_str(), info, &err);
                break;
            default:
                fed = helicsCreateCombinationFederate(name.c_str(), info, &err);
                break;
        }
        ok(err, "creating " + name);
        helicsFederateInfoFree(info);
        if (name != helicsFederateGetName(fed)) {
            chk::fail("names", "federate %s is called %s", name.c_str(), helicsFederateGetName(fed));
        }
        return fed;
    }

    void federate(int i)
    {
        HelicsError err = helicsErrorInitialize();
        auto* fed = create(i);
        std::map<int, HelicsPublication> myPubs;
        std::map<int, HelicsInput> myIns;
        std::map<int, HelicsEndpoint> myEps;
        for (size_t k = 0; k < pubs.size(); ++k) {
            auto& p = pubs[k];
            if (p.owner != i) {
                continue;
            }
            fx::think(pick(6));
            const auto local = p.global ? p.name : p.name.substr(d.fedName(i).size() + 1);
            auto* x = p.global ? helicsFederateRegisterGlobalPublication(fed, local.c_str(), dataType(p.kind), "", &err) :
                                 helicsFederateRegisterPublication(fed, local.c_str(), dataType(p.kind), nullptr, &err);
            ok(err, "registering " + p.name);
            myPubs[static_cast<int>(k)] = x;
            if (p.name != helicsPublicationGetName(x)) {
                chk::fail("names", "publication %s is called %s", p.name.c_str(), helicsPublicationGetName(x));
            }
        }
        for (size_t k = 0; k < ins.size(); ++k) {
            auto& x = ins[k];
            if (x.owner != i) {
                continue;
            }
            auto& p = pubs[static_cast<size_t>(x.pub)];
            fx::think(pick(6));
            HelicsInput in = nullptr;
            const auto name = "in" + std::to_string(k);
            switch (x.how) {
                case 0:
                    in = helicsFederateRegisterSubscription(fed, p.name.c_str(), nullptr, &err);
                    break;
                case 1:
                    in = helicsFederateRegisterInput(fed, name.c_str(), dataType(p.kind), nullptr, &err);
                    helicsInputAddTarget(in, p.name.c_str(), &err);
                    break;
                default:
                    in = helicsFederateRegisterGlobalInput(fed, name.c_str(), dataType(p.kind), nullptr, &err);
                    helicsInputAddTarget(in, p.name.c_str(), &err);
                    break;
            }
            ok(err, "registering an input of " + p.name);
            myIns[static_cast<int>(k)] = in;
        }
        for (size_t k = 0; k < eps.size(); ++k) {
            auto& e = eps[k];
            if (e.owner != i) {
                continue;
            }
            fx::think(pick(6));
            const auto local = e.global ? e.name : e.name.substr(d.fedName(i).size() + 1);
            auto* x = e.global ? helicsFederateRegisterGlobalEndpoint(fed, local.c_str(), nullptr, &err) : helicsFederateRegisterEndpoint(fed, local.c_str(), "", &err);
            ok(err, "registering " + e.name);
            myEps[static_cast<int>(k)] = x;
            if (e.def >= 0) {
                helicsEndpointSetDefaultDestination(x, eps[static_cast<size_t>(e.def)].name.c_str(), &err);
                ok(err, "setting a default destination");
                if (eps[static_cast<size_t>(e.def)].name != helicsEndpointGetDefaultDestination(x)) {
                    chk::fail("names", "the default destination of %s is %s", e.name.c_str(), helicsEndpointGetDefaultDestination(x));
                }
            }
            if (e.name != helicsEndpointGetName(x)) {
                chk::fail("names", "endpoint %s is called %s", e.name.c_str(), helicsEndpointGetName(x));
            }
        }
        if (helicsFederateGetPublicationCount(fed) != static_cast<int>(myPubs.size()) || helicsFederateGetInputCount(fed) != static_cast<int>(myIns.size()) ||
            helicsFederateGetEndpointCount(fed) != static_cast<int>(myEps.size())) {
            chk::fail("names", "%s has %d publications, %d inputs, %d endpoints", d.fedName(i).c_str(), helicsFederateGetPublicationCount(fed), helicsFederateGetInputCount(fed), helicsFederateGetEndpointCount(fed));
        }
        for (auto& x : myPubs) {
            // any handle of the interface will do from here on
            auto& name = pubs[static_cast<size_t>(x.first)].name;
            auto* found = helicsFederateGetPublication(fed, name.c_str(), &err);
            if (found == nullptr || helicsPublicationGetName(found) != name) {
                chk::fail("names", "looking up %s gives %s", name.c_str(), found == nullptr ? "nothing" : helicsPublicationGetName(found));
            }
            if (flip(1, 2)) {
                x.second = found;
            }
        }
        for (auto& x : myEps) {
            // any handle of the interface will do from here on
            auto& name = eps[static_cast<size_t>(x.first)].name;
            auto* found = helicsFederateGetEndpoint(fed, name.c_str(), &err);
            if (found == nullptr || helicsEndpointGetName(found) != name) {
                chk::fail("names", "looking up %s gives %s", name.c_str(), found == nullptr ? "nothing" : helicsEndpointGetName(found));
            }
            if (flip(1, 2)) {
                x.second = found;
            }
        }
        ok(err, "looking interfaces up");
        const bool async = flip(1, 3);
        if (async) {
            helicsFederateEnterExecutingModeAsync(fed, &err);
            fx::think(pick(6));
            helicsFederateEnterExecutingModeComplete(fed, &err);
        } else {
            helicsFederateEnterExecutingMode(fed, &err);
        }
        ok(err, "entering executing mode");
        std::map<int, int> shown;  // input: step
        std::vector<std::pair<HelicsMessage, std::string>> held;
        const int64_t P = period * MS;
        for (int step = 0; step <= steps; ++step) {
            if (step > 0) {
                const double t = fx::sec(P * step);
                double got = 0;
                switch (pick(4)) {
                    case 0:
                        helicsFederateRequestTimeAsync(fed, t, &err);
                        fx::think(pick(6));
                        if (flip(1, 2)) {
                            (void)helicsFederateIsAsyncOperationCompleted(fed, &err);
                        }
                        got = helicsFederateRequestTimeComplete(fed, &err);
                        break;
                    case 1:
                        got = helicsFederateRequestNextStep(fed, &err);
                        break;
                    case 2:
                        got = helicsFederateRequestTimeAdvance(fed, fx::sec(P), &err);
                        break;
                    default:
                        got = helicsFederateRequestTime(fed, t, &err);
                        break;
                }
                ok(err, "requesting a time");
                if (std::abs(got - t) > 1e-9 || std::abs(helicsFederateGetCurrentTime(fed, &err) - t) > 1e-9) {
                    chk::fail("time", "%s asked for %.9f and got %.9f", d.fedName(i).c_str(), t, got);
                }
                if (chk::verbose()) {
                    chk::trace("f%d granted step %d", i, step);
                }
            }
            if (flip(1, 3)) {
                misuse(fed, myPubs.empty() ? nullptr : myPubs.begin()->second, myIns.empty() ? nullptr : myIns.begin()->second, myEps.empty() ? nullptr : myEps.begin()->second, held.empty() ? nullptr : held.back().first);
            }
            // inputs
            for (auto& x : myIns) {
                auto& p = pubs[static_cast<size_t>(ins[static_cast<size_t>(x.first)].pub)];
                if (step == 0 || flip(1, 5)) {
                    continue;
                }
                int newest = -1;
                for (auto& a : p.at) {
                    if (a.first < step) {
                        newest = a.first;
                    }
                }
                const double upd = helicsInputLastUpdateTime(x.second);
                // the step of the request that brought the last update
                const auto updNs = std::llround(upd * 1e9);
                const int at = upd < 0 ? -1 : static_cast<int>(updNs / P);
                if (newest < 0 && (at < 0 || at == 0) && p.at.count(0) == 0) {
                    continue;  // nothing yet
                }
                // a publication at the time of the grant may be in it or come with the next one
                const bool sameTime = p.at.count(step) != 0;
                if (updNs % P != 0 || !((newest >= 0 && (at == newest || at == newest + 1)) || (sameTime && at == step))) {
                    chk::fail("update-time", "%s at step %d was updated last at %.9f, published last at step %d", p.name.c_str(), step, upd, newest);
                }
                const bool fresh = shown.count(x.first) == 0 || shown[x.first] < at;
                const bool updated = helicsInputIsUpdated(x.second) != HELICS_FALSE;
                if (updated != fresh) {
                    chk::fail("updated", "%s at step %d: updated %d, the update at step %d was %s", p.name.c_str(), step, updated ? 1 : 0, at, fresh ? "not read" : "read");
                }
                shown[x.first] = step;
                int u = newest;
                if (sameTime && at == step) {
                    // which of the two it is shows in the value
                    u = newest < 0 || is(x.second, p, p.at[step]) ? step : newest;
                }
                auto raw = [&] {
                    if (p.kind != RAW && p.kind != BOOLEAN && p.kind != CHAR && p.kind != TIME) {
                        auto* buf = helicsInputGetDataBuffer(x.second, &err);
                        ok(err, "helicsInputGetDataBuffer");
                        fromBuffer(buf, p, p.at[u], "data buffer");
                        helicsDataBufferFree(buf);
                    }
                };
                if (flip(1, 4)) {
                    raw();
                    afterRaw = true;
                }
                if (chk::verbose()) {
                    chk::trace("f%d reads in%d of %s at step %d: update at %d, newest %d, expecting step %d", i, x.first, p.name.c_str(), step, at, newest, u);
                }
                read(x.second, p, p.at[u]);
                afterRaw = false;
                if (flip(1, 3)) {
                    raw();
                }
                if (helicsInputIsUpdated(x.second) != HELICS_FALSE) {
                    chk::fail("updated", "%s is still updated after it was read", p.name.c_str());
                }
            }
            // messages
            const bool byFederate = !myEps.empty() && flip(1, 3);
            auto take = [&](HelicsMessage m, int at) {
                if (helicsMessageIsValid(m) == HELICS_FALSE) {
                    chk::fail("message", "a received message is not valid");
                }
                receive(m, at, step, byFederate);
                if (flip(1, 2)) {
                    held.emplace_back(m, contents(m));
                } else {
                    helicsMessageFree(m);
                }
            };
            if (byFederate) {
                int count = helicsFederatePendingMessageCount(fed);
                while (helicsFederateHasMessage(fed) != HELICS_FALSE) {
                    auto* m = helicsFederateGetMessage(fed);
                    const std::string dest = helicsMessageGetDestination(m);
                    int at = -1;
                    for (auto& e : myEps) {
                        if (eps[static_cast<size_t>(e.first)].name == dest) {
                            at = e.first;
                        }
                    }
                    if (at < 0) {
                        chk::fail("message-address", "%s received a message for %s", d.fedName(i).c_str(), dest.c_str());
                    }
                    --count;
                    take(m, at);
                }
                if (count != 0) {
                    chk::fail("message-count", "the count of pending messages was off by %d", count);
                }
            } else {
                for (auto& e : myEps) {
                    int count = helicsEndpointPendingMessageCount(e.second);
                    while (helicsEndpointHasMessage(e.second) != HELICS_FALSE) {
                        take(helicsEndpointGetMessage(e.second), e.first);
                        --count;
                    }
                    if (count != 0 || helicsEndpointGetMessage(e.second) != nullptr) {
                        chk::fail("message-count", "the count of pending messages was off by %d", count);
                    }
                }
            }
            // everything this federate should have by now
            for (auto& m : msgs) {
                if (eps[static_cast<size_t>(m.to)].owner == i && m.got == 0 && lastStep(m) <= step) {
                    chk::fail("message-missing", "message %d of %zu bytes sent at step %d for %lld ns (way %d, %s to %s) did not arrive by step %d", static_cast<int>(&m - msgs.data()), m.data.size(), m.step, static_cast<long long>(m.at), m.way, eps[static_cast<size_t>(m.from)].name.c_str(), eps[static_cast<size_t>(m.to)].name.c_str(), step);
                }
            }
            for (auto& h : held) {
                if (helicsMessageIsValid(h.first) == HELICS_FALSE || contents(h.first) != h.second) {
                    chk::fail("message", "a message the caller kept has changed");
                }
            }
            if (held.size() > 3) {
                helicsMessageFree(held.front().first);
                held.erase(held.begin());
            }
            fx::think(pick(6));
            for (auto& x : myPubs) {
                auto& p = pubs[static_cast<size_t>(x.first)];
                auto v = p.at.find(step);
                if (v != p.at.end()) {
                    publish(x.second, p, v->second, p.how[step], &err);
                    ok(err, "publishing " + p.name);
                }
            }
            for (auto& m : msgs) {
                if (m.step == step && eps[static_cast<size_t>(m.from)].owner == i) {
                    send(fed, myEps[m.from], m);
                }
            }
        }
        helicsFederateFinalize(fed, &err);
        ok(err, "finalizing");
        if (helicsFederateGetState(fed, &err) != HELICS_STATE_FINALIZE) {
            chk::fail("time", "the state after finalize is %d", static_cast<int>(helicsFederateGetState(fed, &err)));
        }
        for (auto& h : held) {
            if (contents(h.first) != h.second) {
                chk::fail("message", "a message the caller kept has changed after finalize");
            }
        }
        helicsFederateFree(fed);
    }

    void run()
    {
        generate();
        chk::describe("%s", str().c_str());
        fx::pickNetwork();
        d.start();
        fx::runFederates(d, [&](int i) { federate(i); });
        d.finish();
        if (!ins.empty() || !msgs.empty()) {
            chk::nontrivial();
        }
    }
};

chk::Register rc("C36", "c_interface", 25, [] {
    CInterface x;
    x.run();
});
}  // namespace
