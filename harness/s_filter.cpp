// Filters on endpoints of a running federation (C06)
#include "fed.hpp"

#include "helics/application_api/MessageOperators.hpp"

#include <map>
#include <set>

namespace {
using namespace helics;
using chk::flip;
using chk::pick;

constexpr int64_t MS = 1'000'000;

struct FilterRun {
    enum Type { DELAY, TAG, DROP, REROUTE, RANDOM_DELAY, RANDOM_DROP, CLONE, TYPES };
    struct Filt {
        int type{0};
        int owner{0};  // federate that registers it
        bool viaCore{false};  // through the core of that federate
        std::vector<int> sources, dests;  // endpoints
        int64_t delay{0}, delayMax{0};
        int modulo{2};  // DROP: those with id % modulo == 0
        bool drops{false};  // RANDOM_DROP: all
        std::vector<int> delivery;  // CLONE and REROUTE: sinks
        std::string condition;  // REROUTE
        uint64_t join{0};
        std::string name;
    };
    struct Send {
        int id, from, to;
        int64_t extra;  // sent for a later time
        size_t size;
    };
    struct Expect {
        int id;
        int sink;  // endpoint
        int64_t from, to;  // times
        std::string tags;
        bool maybe;
        bool loose;  // sent on by a destination filter: may be late
        int source, dest;
        int seen{0};
    };
    int n{0};
    int steps{0};
    fx::Deployment d;
    std::vector<Filt> filters;
    std::vector<std::vector<std::vector<Send>>> at;  // per federate and step
    std::vector<Expect> expected;
    std::vector<int64_t> period;
    std::vector<uint64_t> think;
    std::vector<int> lastStep;
    int filtered{0};
    // endpoints 0..n-1 are e<i> of federate i, n..2n-1 sinks s<i> of federate i
    std::string ep(int e) const { return e < n ? "e" + std::to_string(e) : "s" + std::to_string(e - n); }

    static Filt make(int type) { Filt f; f.type = type; return f; }

    unsigned mask{0xffff};
    void generate(bool sameCore, bool random)
    {
        n = 2 + static_cast<int>(pick(4));
        d = fx::pickDeployment(n, fx::ANY, sameCore ? 1 : 3, sameCore);
        steps = 2 + static_cast<int>(pick(5));
        const auto count = 1 + pick(5);
        std::vector<int> destFilter(static_cast<size_t>(n), 0);
        std::vector<int> reroute(static_cast<size_t>(n), 0);
        for (uint64_t k = 0; k < count; ++k) {
            Filt f;
            f.type = static_cast<int>(pick(TYPES));
            if (!random && (f.type == RANDOM_DELAY || f.type == RANDOM_DROP)) {
                f.type -= 4;
            }
            f.owner = static_cast<int>(pick(static_cast<uint64_t>(n)));
            f.viaCore = flip(1, 5);
            f.join = pick(5);
            f.name = "flt" + std::to_string(k);
            f.delay = static_cast<int64_t>(pick(30)) * 100 * MS;
            f.delayMax = f.delay + static_cast<int64_t>(1 + pick(20)) * 100 * MS;
            f.modulo = 1 + static_cast<int>(pick(3));
            f.drops = flip(1, 2);
            const auto targets = 1 + pick(3);
            for (uint64_t t = 0; t < targets; ++t) {
                const int e = static_cast<int>(pick(static_cast<uint64_t>(n)));
                const auto se = static_cast<size_t>(e);
                if (flip(1, 2)) {
                    if (std::find(f.sources.begin(), f.sources.end(), e) == f.sources.end() && !(f.type == REROUTE && reroute[se]++ != 0)) {
                        f.sources.push_back(e);
                    }
                } else if (std::find(f.dests.begin(), f.dests.end(), e) == f.dests.end() && (f.type == CLONE || destFilter[se]++ == 0)) {
                    f.dests.push_back(e);
                }
            }
            if (f.type == REROUTE) {
                f.delivery.push_back(n + static_cast<int>(pick(static_cast<uint64_t>(n))));
                if (flip(1, 2)) {
                    f.condition = "e" + std::to_string(pick(static_cast<uint64_t>(n)));
                }
            }
            if (f.type == CLONE) {
                for (auto c = 1 + pick(2); c > 0; --c) {
                    const int s = n + static_cast<int>(pick(static_cast<uint64_t>(n)));
                    if (std::find(f.delivery.begin(), f.delivery.end(), s) == f.delivery.end()) {
                        f.delivery.push_back(s);
                    }
                }
            }
            if (f.type == CLONE ? (mask & 4) == 0 : (mask & 1) == 0) {
                f.sources.clear();
            }
            if (f.type != CLONE && (mask & 2) == 0) {
                auto& v = f.sources;
                v.erase(std::remove_if(v.begin(), v.end(), [&](int e) {
                            return std::any_of(filters.begin(), filters.end(), [&](const Filt& o) { return o.type != CLONE && std::find(o.sources.begin(), o.sources.end(), e) != o.sources.end(); });
                        }),
                        v.end());
            }
            auto& v = f.dests;
            v.erase(std::remove_if(v.begin(), v.end(), [&](int e) {
                        const bool local = d.coreOf[static_cast<size_t>(e)] == d.coreOf[static_cast<size_t>(f.owner)];
                        const unsigned bit = f.type == CLONE ? (local ? 32 : 64) : (local ? 8 : 16);
                        return (mask & bit) == 0;
                    }),
                    v.end());
            if (!f.sources.empty() || !f.dests.empty()) {
                filters.push_back(f);
            }
        }
        int id = 0;
        at.resize(static_cast<size_t>(n));
        for (int i = 0; i < n; ++i) {
            period.push_back(1000 * MS);
            think.push_back(pick(6));
            lastStep.push_back(steps);
            auto& x = at[static_cast<size_t>(i)];
            x.resize(static_cast<size_t>(steps) + 1);
            for (auto& a : x) {
                for (auto k = pick(3); k > 0; --k) {
                    Send s;
                    s.id = ++id;
                    s.from = i;
                    s.to = static_cast<int>(pick(static_cast<uint64_t>(n)));
                    s.extra = flip(1, 3) ? static_cast<int64_t>(pick(20)) * 100 * MS : 0;
                    s.size = flip(1, 8) ? pick(5000) : 0;
                    a.push_back(s);
                }
            }
        }
    }
    /** what becomes of a message that arrives at the destination endpoint */
    void arrive(Expect x, int e)
    {
        if (e >= n) {
            x.sink = e;
            expected.push_back(x);
            return;
        }
        for (auto& f : filters) {
            if (f.type == CLONE || std::find(f.dests.begin(), f.dests.end(), e) == f.dests.end()) {
                continue;
            }
            if (apply(f, x, e)) {
                x.loose = true;
                arrive(x, e);  // rerouted to a sink
                return;
            }
            if (x.id < 0) {
                return;
            }
        }
        for (auto& f : filters) {
            if (f.type == CLONE && std::find(f.dests.begin(), f.dests.end(), e) != f.dests.end()) {
                for (auto s : f.delivery) {
                    auto c = x;
                    c.sink = s;
                    c.loose = true;
                    expected.push_back(c);
                }
                ++filtered;
            }
        }
        x.sink = e;
        expected.push_back(x);
    }
    /** @return true if rerouted */
    bool apply(const Filt& f, Expect& x, int& e)
    {
        ++filtered;
        switch (f.type) {
            case DELAY:
                x.from += f.delay;
                x.to += f.delay;
                break;
            case RANDOM_DELAY:
                x.from += f.delay;
                x.to += f.delayMax;
                break;
            case TAG:
                x.tags += f.name + ";";
                break;
            case DROP:
                if (x.id % f.modulo == 0) {
                    x.id = -1;
                }
                break;
            case RANDOM_DROP:
                if (f.drops) {
                    x.maybe = true;
                }
                break;
            case REROUTE:
                if (f.condition.empty() || f.condition == ep(e)) {
                    e = f.delivery.front();
                    return true;
                }
                break;
            default:
                break;
        }
        return false;
    }
    void predict(const Send& s, int64_t granted)
    {
        Expect x{};
        x.id = s.id;
        x.from = x.to = granted + s.extra;
        x.source = s.from;
        x.dest = s.to;
        int e = s.to;
        for (auto& f : filters) {
            if (f.type == CLONE && std::find(f.sources.begin(), f.sources.end(), s.from) != f.sources.end()) {
                for (auto c : f.delivery) {
                    auto cl = x;
                    cl.sink = c;
                    expected.push_back(cl);
                }
                ++filtered;
            }
        }
        for (auto& f : filters) {
            if (f.type != CLONE && f.type != REROUTE && std::find(f.sources.begin(), f.sources.end(), s.from) != f.sources.end()) {
                apply(f, x, e);
            }
        }
        // the order of the filters does not matter, except that a dropped message is not rerouted
        if (x.id < 0) {
            return;
        }
        for (auto& f : filters) {
            if (f.type == REROUTE && std::find(f.sources.begin(), f.sources.end(), s.from) != f.sources.end()) {
                apply(f, x, e);
            }
        }
        arrive(x, e);
    }
    static std::string sorted(const std::string& tags)
    {
        std::set<std::string> s;
        size_t b = 0;
        for (size_t p = tags.find(';'); p != std::string::npos; p = tags.find(';', b)) {
            s.insert(tags.substr(b, p - b));
            b = p + 1;
        }
        std::string r;
        for (auto& t : s) {
            r += t + ";";
        }
        return r;
    }
    std::string describe() const
    {
        std::string r;
        static const char* names[] = {"delay", "tag", "drop", "reroute", "random_delay", "random_drop", "clone"};
        for (auto& f : filters) {
            r += " " + f.name + "=" + names[f.type] + (f.viaCore ? "@core_of_" : "@") + std::to_string(f.owner) + "(";
            for (auto e : f.sources) {
                r += " src:" + ep(e);
            }
            for (auto e : f.dests) {
                r += " dst:" + ep(e);
            }
            for (auto e : f.delivery) {
                r += " to:" + ep(e);
            }
            if (f.type == DELAY || f.type == RANDOM_DELAY) {
                r += " " + std::to_string(f.delay / MS) + "ms";
            }
            r += (f.condition.empty() ? "" : " if " + f.condition) + ")";
        }
        return r;
    }
    void configure(Filter& flt, const Filt& f)
    {
        switch (f.type) {
            case DELAY:
                flt.set("delay", fx::sec(f.delay));
                break;
            case RANDOM_DELAY:
                flt.setString("distribution", "uniform");
                flt.set("min", fx::sec(f.delay));
                flt.set("max", fx::sec(f.delayMax));
                break;
            case RANDOM_DROP:
                flt.set("prob", f.drops ? 0.5 : 0.0);
                break;
            case TAG: {
                auto name = f.name;
                flt.setOperator(std::make_shared<MessageDataOperator>([name](SmallBuffer& b) {
                    auto t = std::string(b.to_string()) + name + ";";
                    b = t;
                }));
                break;
            }
            case DROP: {
                const auto mod = f.modulo;
                flt.setOperator(std::make_shared<MessageConditionalOperator>([mod](const Message* m) {
                    return std::atoi(std::string(m->data.to_string()).c_str()) % mod != 0;
                }));
                break;
            }
            case REROUTE:
                flt.setString("newdestination", ep(f.delivery.front()));
                if (!f.condition.empty()) {
                    flt.setString("condition", f.condition);
                }
                break;
            default:
                break;
        }
        for (auto e : f.sources) {
            flt.addSourceTarget(ep(e));
        }
        for (auto e : f.dests) {
            flt.addDestinationTarget(ep(e));
        }
    }
    static FilterTypes typeOf(int t)
    {
        switch (t) {
            case DELAY:
                return FilterTypes::DELAY;
            case RANDOM_DELAY:
                return FilterTypes::RANDOM_DELAY;
            case RANDOM_DROP:
                return FilterTypes::RANDOM_DROP;
            case REROUTE:
                return FilterTypes::REROUTE;
            case CLONE:
                return FilterTypes::CLONE;
            default:
                return FilterTypes::CUSTOM;
        }
    }
    void install(const Filt& f, CombinationFederate* fed, std::vector<std::unique_ptr<Filter>>& keep)
    {
        fx::think(f.join);
        if (f.type == CLONE) {
            if (f.viaCore) {
                auto c = make_cloning_filter(FilterTypes::CLONE, fed->getCorePointer().get(), ep(f.delivery.front()), f.name);
                for (size_t k = 1; k < f.delivery.size(); ++k) {
                    c->addDeliveryEndpoint(ep(f.delivery[k]));
                }
                configure(*c, f);
                keep.push_back(std::move(c));
            } else {
                auto& c = make_cloning_filter(InterfaceVisibility::GLOBAL, FilterTypes::CLONE, fed, ep(f.delivery.front()), f.name);
                for (size_t k = 1; k < f.delivery.size(); ++k) {
                    c.addDeliveryEndpoint(ep(f.delivery[k]));
                }
                configure(c, f);
            }
        } else if (f.viaCore) {
            auto c = make_filter(typeOf(f.type), fed->getCorePointer().get(), f.name);
            configure(*c, f);
            keep.push_back(std::move(c));
        } else {
            configure(make_filter(InterfaceVisibility::GLOBAL, typeOf(f.type), fed, f.name), f);
        }
    }
    void receive(int self, int e, const Message& m, int64_t granted)
    {
        const std::string data(m.data.to_string());
        const int id = std::atoi(data.c_str());
        const auto bar = data.find('|');
        const auto end = data.rfind('|');
        const auto tags = end == std::string::npos ? std::string() : data.substr(end + 1);
        const auto time = fx::ns(m.time);
        if (chk::verbose()) {
            chk::trace("federate %d at %.3f: %s got '%.40s%s' time %.3f from %s", self, fx::sec(granted), ep(e).c_str(), data.substr(0, bar).c_str(), tags.c_str(), fx::sec(time), m.source.c_str());
        }
        std::string detail = "message " + std::to_string(id) + " tags '" + tags + "' at " + ep(e) + " at " + std::to_string(fx::sec(granted)) + " s with time " + std::to_string(fx::sec(time)) + " s";
        if (time > granted) {
            chk::fail("filtered-early", "%s", detail.c_str());
        }
        Expect* best = nullptr;
        for (auto& x : expected) {
            if (x.id == id && x.sink == e && x.from <= time && time <= x.to && sorted(tags) == sorted(x.tags) && x.seen == 0) {
                best = &x;
                break;
            }
        }
        if (best == nullptr) {
            std::string what;
            for (auto& x : expected) {
                if (x.id == id) {
                    what += " (" + ep(x.sink) + " " + std::to_string(fx::sec(x.from)) + " s tags '" + x.tags + (x.seen != 0 ? "' seen)" : "')");
                }
            }
            chk::fail("filtered-unexpected", "%s; expected%s", detail.c_str(), what.c_str());
        }
        best->seen = 1;
        if (m.source != ep(best->source) || m.dest != ep(e)) {
            chk::fail("filtered-address", "%s is from %s to %s", detail.c_str(), m.source.c_str(), m.dest.c_str());
        }
        if (best->sink != best->dest && m.original_dest != ep(best->dest)) {
            chk::fail("filtered-original-dest", "%s: original destination '%s', not '%s'", detail.c_str(), m.original_dest.c_str(), ep(best->dest).c_str());
        }
        if (bar != std::string::npos && data.substr(bar + 1, end - bar - 1) != fx::payload(std::to_string(id), end - bar - 1)) {
            chk::fail("filtered-data", "%s", detail.c_str());
        }
    }
    /** all that must be there */
    void complete(int self, int64_t granted, bool all = false)
    {
        for (auto& x : expected) {
            if (x.sink % n == self && x.seen == 0 && !x.maybe && (all || !x.loose) && x.to < granted) {
                chk::fail("filtered-late", "federate %d at %.3f s: %s has not got message %d of time %.3f s (from e%d to e%d)", self, fx::sec(granted), ep(x.sink).c_str(), x.id, fx::sec(x.to), x.source, x.dest);
            }
        }
    }
    void run()
    {
        fx::pickNetwork();
        chk::describe("%s | %d steps |%s", d.str().c_str(), steps, describe().c_str());
        d.start();
        int done = 0;
        int closed = 0;
        fx::runFederates(d, [&](int i) {
            const auto si = static_cast<size_t>(i);
            auto fi = d.info(i);
            fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, fx::sec(period[si]));
            fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE);
            CombinationFederate fed(d.fedName(i), fi);
            std::vector<std::unique_ptr<Filter>> keep;
            const bool first = (think[si] & 1) != 0;
            auto endpoints = [&] {
                fed.registerGlobalEndpoint(ep(i));
                fed.registerGlobalEndpoint(ep(n + i));
            };
            if (!first) {
                endpoints();
            }
            for (auto& f : filters) {
                if (f.owner == i) {
                    install(f, &fed, keep);
                }
            }
            if (first) {
                endpoints();
            }
            auto& e = fed.getEndpoint(0);
            auto& s = fed.getEndpoint(1);
            fx::think(think[si]);
            fed.enterExecutingMode();
            for (int st = 0; st <= lastStep[si]; ++st) {
                int64_t g = 0;
                if (st > 0) {
                    const auto want = st * period[si];
                    g = fx::ns(fed.requestTime(fx::fromNs(want)));
                    if (g != want) {
                        chk::fail("grant", "federate %d was granted %.3f s instead of %.3f s", i, fx::sec(g), fx::sec(want));
                    }
                }
                while (auto m = e.getMessage()) {
                    receive(i, i, *m, g);
                }
                while (auto m = s.getMessage()) {
                    receive(i, n + i, *m, g);
                }
                complete(i, g);
                for (auto& x : at[si][static_cast<size_t>(st)]) {
                    predict(x, g);
                    std::string text = std::to_string(x.id) + "|" + fx::payload(std::to_string(x.id), x.size) + "|";
                    if (x.extra != 0) {
                        e.sendToAt(text, ep(x.to), fx::fromNs(g + x.extra));
                    } else {
                        e.sendTo(text, ep(x.to));
                    }
                }
                fx::think((think[si] + static_cast<uint64_t>(st)) % 7);
            }
            // a filter ends with its federate
            ++done;
            while (done < n) {
                sim::sleepNs(1'000'000);
            }
            // time for what destination filters sent on
            sim::sleepNs(5'000'000'000);
            const auto g = fx::ns(fed.requestTime(fx::fromNs((lastStep[si] + 1) * period[si])));
            while (auto m = e.getMessage()) {
                receive(i, i, *m, g);
            }
            while (auto m = s.getMessage()) {
                receive(i, n + i, *m, g);
            }
            complete(i, lastStep[si] * period[si], true);
            ++closed;
            while (closed < n) {
                sim::sleepNs(1'000'000);
            }
            fed.finalize();
        });
        d.finish();
        if (filtered > 0) {
            chk::nontrivial();
        }
        chk::count("reach.filter_operations", static_cast<uint64_t>(filtered));
    }
};

chk::Register rf("C06", "filters", 4, [] {
    FilterRun r;
    r.generate(false, true);
    r.run();
});
chk::Register rl("C06", "filters_one_core", 1, [] {
    FilterRun r;
    r.generate(true, true);
    r.run();
});
}  // namespace
