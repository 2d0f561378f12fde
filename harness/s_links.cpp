// Links between interfaces, requested in every way and order (C16)
#include "fed.hpp"

#include "helics/application_api/FilterOperations.hpp"
#include "helics/application_api/ValueConverter.hpp"

#include <map>
#include <set>

namespace {
using namespace helics;
using chk::flip;
using chk::pick;

constexpr int64_t MS = 1'000'000;

/** adds its name to each message */
struct Tagger: public FilterOperator {
    std::string tag;
    explicit Tagger(std::string t): tag(std::move(t)) {}
    std::unique_ptr<Message> process(std::unique_ptr<Message> m) override
    {
        m->data.append(tag);
        return m;
    }
};

struct Links {
    enum Kind { PUB, INPUT, TARGETED, PLAIN, FILTER, KINDS };
    enum How { SOURCE_SIDE, TARGET_SIDE, CORE, BROKER, CONFIG_SOURCE, CONFIG_TARGET, HOWS };
    struct Iface {
        Kind kind;
        int owner;
        std::string name;
        std::string alias;
        int aliasBy{0};  // 0 owner's federate, 1 a core, 2 a broker
        int aliasNode{0};
        bool unnamed{false};  // an input without a name: only it can ask
    };
    struct Request {
        How how;
        int from, to;  // interfaces
        int node;  // core or broker that is asked
        bool byAlias;
        bool dest;  // filter on the destination side
        bool regex{false};
        bool requested{false};
    };
    struct Action {
        int iface{-1};
        int request{-1};
        int alias{-1};
        uint64_t think{0};
    };
    int n{0};
    fx::Deployment d;
    std::vector<Iface> ifaces;
    std::vector<Request> requests;
    std::vector<std::vector<Action>> actions;  // per federate, the last one is of the brokers
    std::set<std::pair<int, int>> data, msgs, srcFilters, dstFilters;
    bool aliases{true};
    bool regexes{true};

    std::string desc;

    int add(Kind k, int owner)
    {
        static const char* prefix[] = {"p", "i", "t", "e", "F"};
        Iface f{k, owner, prefix[k] + std::to_string(ifaces.size()), "", 0, 0, false};
        if (aliases && flip(1, 4)) {
            f.alias = "alias/" + f.name;
            f.aliasBy = static_cast<int>(pick(3));
            f.aliasNode = static_cast<int>(pick(static_cast<uint64_t>(f.aliasBy == 1 ? d.coreBroker.size() : static_cast<size_t>(d.brokerCount))));
        }
        ifaces.push_back(f);
        return static_cast<int>(ifaces.size()) - 1;
    }
    std::vector<int> all(Kind k) const
    {
        std::vector<int> r;
        for (size_t i = 0; i < ifaces.size(); ++i) {
            if (ifaces[i].kind == k) {
                r.push_back(static_cast<int>(i));
            }
        }
        return r;
    }
    int any(const std::vector<int>& v) { return v[pick(v.size())]; }
    const Iface& of(int k) const { return ifaces[static_cast<size_t>(k)]; }

    void ask(int from, int to, bool dest)
    {
        const int times = 1 + static_cast<int>(flip(1, 4)) + static_cast<int>(flip(1, 10));
        for (int t = 0; t < times; ++t) {
            Request r{static_cast<How>(pick(HOWS)), from, to, 0, flip(1, 2), dest, false, false};
            if (of(to).unnamed && r.how != CONFIG_TARGET) {
                r.how = TARGET_SIDE;
            }
            if (of(from).kind == FILTER && (r.how == TARGET_SIDE || r.how == CONFIG_TARGET)) {
                r.how = SOURCE_SIDE;  // see below: the endpoint's own requests
                if (flip(1, 2)) {
                    r.how = TARGET_SIDE;
                }
            }
            if (of(from).kind == FILTER && (r.how == CORE || r.how == BROKER)) {
                r.byAlias = false;  // not supported by HELICS (a TODO in the broker)
            }
            r.node = static_cast<int>(pick(static_cast<uint64_t>(r.how == CORE ? d.coreBroker.size() : static_cast<size_t>(d.brokerCount))));
            requests.push_back(r);
        }
    }
    void generate()
    {
        n = 2 + static_cast<int>(pick(3));
        d = fx::pickDeployment(n);
        auto who = [&] { return static_cast<int>(pick(static_cast<uint64_t>(n))); };
        static const std::pair<Kind, int> kinds[] = {{PUB, 4}, {INPUT, 4}, {TARGETED, 4}, {PLAIN, 3}, {FILTER, 4}};
        for (auto& k : kinds) {
            for (auto c = pick(static_cast<uint64_t>(k.second) + 1); c > 0; --c) {
                const auto f = add(k.first, who());
                if (k.first == INPUT && flip(1, 5)) {
                    ifaces[static_cast<size_t>(f)].unnamed = true;
                    ifaces[static_cast<size_t>(f)].alias.clear();
                }
            }
        }
        const auto pubs = all(PUB), inputs = all(INPUT), targeted = all(TARGETED), plain = all(PLAIN), filters = all(FILTER);
        auto some = [&](auto& set, const std::vector<int>& a, const std::vector<int>& b, bool dest) {
            if (a.empty() || b.empty()) {
                return;
            }
            for (auto c = pick(5); c > 0; --c) {
                const int x = any(a), y = any(b);
                if (x == y || set.count({x, y}) != 0) {
                    continue;
                }
                set.emplace(x, y);
                ask(x, y, dest);
            }
        };
        some(data, pubs, inputs, false);
        some(msgs, targeted, targeted, false);
        some(srcFilters, filters, plain, false);
        for (int e : plain) {
            if (!filters.empty() && flip(1, 2)) {
                const int f = any(filters);
                if (srcFilters.count({f, e}) == 0) {
                    dstFilters.emplace(f, e);
                    ask(f, e, true);
                }
            }
        }
        if (regexes && pubs.size() > 1 && !inputs.empty() && flip(1, 4)) {
            const int x = any(pubs), y = any(inputs);
            data.emplace(x, y);
            requests.push_back({TARGET_SIDE, x, y, 0, false, false, true, false});
        }
        // the order of everything
        actions.resize(static_cast<size_t>(n) + 1);
        auto insert = [&](int fed, Action a, int after) {
            auto& v = actions[static_cast<size_t>(fed)];
            size_t low = 0;
            if (after >= 0) {
                while (low < v.size() && v[low].iface != after) {
                    ++low;
                }
                ++low;
            }
            a.think = pick(5);
            v.insert(v.begin() + static_cast<std::ptrdiff_t>(low + pick(v.size() - low + 1)), a);
        };
        for (size_t k = 0; k < ifaces.size(); ++k) {
            Action a;
            a.iface = static_cast<int>(k);
            insert(ifaces[k].owner, a, -1);
        }
        for (size_t k = 0; k < requests.size(); ++k) {
            auto& r = requests[k];
            Action a;
            a.request = static_cast<int>(k);
            switch (r.how) {
                case SOURCE_SIDE:
                    insert(of(r.from).owner, a, r.from);
                    break;
                case TARGET_SIDE:
                    insert(of(r.to).owner, a, r.to);
                    break;
                case CORE:
                    insert(static_cast<int>(pick(static_cast<uint64_t>(n))), a, -1);
                    break;
                case BROKER:
                    insert(n, a, -1);
                    break;
                default:
                    break;  // with the registration
            }
        }
        for (size_t k = 0; k < ifaces.size(); ++k) {
            if (ifaces[k].alias.empty()) {
                continue;
            }
            Action a;
            a.alias = static_cast<int>(k);
            insert(ifaces[k].aliasBy == 2 ? n : static_cast<int>(pick(static_cast<uint64_t>(n))), a, -1);
        }
        desc = d.str() + " |";
        for (auto& f : ifaces) {
            desc += " " + f.name + "@" + std::to_string(f.owner) + (f.alias.empty() ? "" : "(" + std::string(f.aliasBy == 0 ? "f" : f.aliasBy == 1 ? "c" : "b") + std::to_string(f.aliasNode) + ")");
        }
        desc += " |";
        static const char* hows[] = {"source", "target", "core", "broker", "json-source", "json-target"};
        for (auto& r : requests) {
            desc += " " + of(r.from).name + ">" + of(r.to).name + (r.dest ? "(dest)" : "") + ":" + (r.regex ? "regex" : hows[r.how]) + (r.how == CORE || r.how == BROKER ? std::to_string(r.node) : "") + (r.byAlias ? "~" : "");
        }
    }
    std::string name(int k, bool byAlias) const { return byAlias && !of(k).alias.empty() ? of(k).alias : of(k).name; }

    struct Objects {
        std::map<int, Publication*> pubs;
        std::map<int, Input*> inputs;
        std::map<int, Endpoint*> eps;
        std::map<int, Filter*> filters;
    };

    void registerOne(CombinationFederate& fed, Objects& o, int k)
    {
        auto& f = of(k);
        std::vector<std::string> targets;
        for (auto& r : requests) {
            if (r.how == CONFIG_SOURCE && r.from == k) {
                targets.push_back(std::string(r.dest ? "D" : "S") + name(r.to, r.byAlias));
            } else if (r.how == CONFIG_TARGET && r.to == k) {
                targets.push_back(std::string("T") + name(r.from, r.byAlias));
            }
        }
        auto list = [&](char c) {
            std::string s;
            for (auto& t : targets) {
                if (t[0] == c) {
                    s += (s.empty() ? "\"" : ",\"") + t.substr(1) + "\"";
                }
            }
            return "[" + s + "]";
        };
        const std::string head = R"({"name":")" + f.name + R"(","global":true)";
        switch (f.kind) {
            case PUB:
                if (targets.empty()) {
                    o.pubs[k] = &fed.registerGlobalPublication(f.name, "string");
                } else {
                    fed.registerInterfaces(R"({"publications":[)" + head + R"(,"type":"string","targets":)" + list('S') + "}]}");
                    o.pubs[k] = &fed.getPublication(f.name);
                }
                break;
            case INPUT:
                if (f.unnamed) {
                    o.inputs[k] = &fed.registerInput("", "string");
                    for (auto& t : targets) {
                        o.inputs[k]->addTarget(t.substr(1));
                    }
                } else if (targets.empty()) {
                    o.inputs[k] = &fed.registerGlobalInput(f.name, "string");
                } else {
                    fed.registerInterfaces(R"({"inputs":[)" + head + R"(,"type":"string","targets":)" + list('T') + "}]}");
                    o.inputs[k] = &fed.getInput(f.name);
                }
                break;
            case TARGETED:
                if (targets.empty()) {
                    o.eps[k] = &fed.registerGlobalTargetedEndpoint(f.name);
                } else {
                    fed.registerInterfaces(R"({"endpoints":[)" + head + R"(,"targeted":true,"destination_endpoints":)" + list('S') + R"(,"source_endpoints":)" + list('T') + "}]}");
                    o.eps[k] = &fed.getEndpoint(f.name);
                }
                break;
            case PLAIN:
                o.eps[k] = &fed.registerGlobalEndpoint(f.name);
                break;
            case FILTER: {
                if (targets.empty()) {
                    o.filters[k] = &fed.registerGlobalFilter(f.name);
                } else {
                    fed.registerInterfaces(R"({"filters":[)" + head + R"(,"operation":"custom","source_endpoints":)" + list('S') + R"(,"destination_endpoints":)" + list('D') + "}]}");
                    o.filters[k] = &fed.getFilter(f.name);
                }
                o.filters[k]->setOperator(std::make_shared<Tagger>("<" + f.name + ">"));
            } break;
            default:
                break;
        }
    }
    void request(CombinationFederate* fed, Objects& o, Request& r)
    {
        const auto from = name(r.from, r.byAlias), to = name(r.to, r.byAlias);
        if (r.how == SOURCE_SIDE) {
            switch (of(r.from).kind) {
                case PUB:
                    o.pubs[r.from]->addDestinationTarget(to);
                    break;
                case TARGETED:
                    o.eps[r.from]->addDestinationEndpoint(to);
                    break;
                default:
                    if (r.dest) {
                        o.filters[r.from]->addDestinationTarget(to);
                    } else {
                        o.filters[r.from]->addSourceTarget(to);
                    }
            }
            return;
        }
        if (r.how == TARGET_SIDE) {
            switch (of(r.to).kind) {
                case INPUT:
                    o.inputs[r.to]->addTarget(r.regex ? "REGEX:" + from : from);
                    break;
                case TARGETED:
                    o.eps[r.to]->addSourceEndpoint(from);
                    break;
                default:
                    if (r.dest) {
                        o.eps[r.to]->addDestinationFilter(from);
                    } else {
                        o.eps[r.to]->addSourceFilter(from);
                    }
            }
            return;
        }
        auto send = [&](auto& x) {
            switch (of(r.from).kind) {
                case PUB:
                    x.dataLink(from, to);
                    break;
                case TARGETED:
                    x.linkEndpoints(from, to);
                    break;
                default:
                    if (r.dest) {
                        x.addDestinationFilterToEndpoint(from, to);
                    } else {
                        x.addSourceFilterToEndpoint(from, to);
                    }
            }
        };
        if (r.how == BROKER) {
            send(*d.brokers[static_cast<size_t>(r.node)]);
        } else {
            send(*fed->getCorePointer());
        }
    }

    void run()
    {
        generate();
        chk::describe("%s", desc.c_str());
        fx::pickNetwork();
        d.start();
        int registered = 0, asked = 0, done = 0;
        std::thread brokerRequests([&] {
            for (auto& a : actions[static_cast<size_t>(n)]) {
                fx::think(a.think);
                Objects none;
                if (a.request >= 0) {
                    request(nullptr, none, requests[static_cast<size_t>(a.request)]);
                } else {
                    auto& f = of(a.alias);
                    d.brokers[static_cast<size_t>(f.aliasNode)]->addAlias(f.name, f.alias);
                }
            }
            // the requests are in the queues; let them get to the root
            sim::sleepNs(2'000'000'000);
            ++asked;
        });
        std::map<int, std::multiset<std::string>> arrived;
        fx::runFederates(d, [&](int i) {
            const auto fi = d.info(i);
            CombinationFederate fed(d.fedName(i), fi);
            fed.setProperty(HELICS_PROPERTY_TIME_PERIOD, fx::fromNs(1000 * MS));
            Objects o;
            for (auto& a : actions[static_cast<size_t>(i)]) {
                fx::think(a.think);
                if (a.iface >= 0) {
                    registerOne(fed, o, a.iface);
                } else if (a.request >= 0) {
                    request(&fed, o, requests[static_cast<size_t>(a.request)]);
                } else {
                    auto& f = of(a.alias);
                    if (f.aliasBy == 0) {
                        fed.addAlias(f.name, f.alias);
                    } else {
                        fed.getCorePointer()->addAlias(f.name, f.alias);
                    }
                }
            }
            ++registered;
            while (registered < n || asked == 0) {
                sim::sleepNs(1'000'000);
            }
            fed.enterExecutingMode();
            for (int step = 1; step <= 3; ++step) {
                fed.requestTime(fx::fromNs(1000 * MS * step));
                if (step == 1) {
                    for (auto& p : o.pubs) {
                        p.second->publish("from " + of(p.first).name);
                    }
                    for (auto& e : o.eps) {
                        if (of(e.first).kind == TARGETED) {
                            bool linked = std::any_of(msgs.begin(), msgs.end(), [&](auto& l) { return l.first == e.first; });
                            if (linked) {
                                e.second->send(of(e.first).name);
                            }
                        } else {
                            for (int other : all(PLAIN)) {
                                e.second->sendTo(of(e.first).name, of(other).name);
                            }
                        }
                    }
                }
                for (auto& e : o.eps) {
                    while (auto m = e.second->getMessage()) {
                        arrived[e.first].insert(std::string(m->data.to_string()));
                    }
                }
            }
            for (auto& x : o.inputs) {
                std::multiset<std::string> got, want;
                for (auto& v : fed.getCorePointer()->getAllValues(x.second->getHandle())) {
                    got.insert(v ? ValueConverter<std::string>::interpret(data_view(*v)) : std::string("none"));
                }
                for (auto& l : data) {
                    if (l.second == x.first) {
                        want.insert("from " + of(l.first).name);
                    }
                }
                compare("input-links", of(x.first).name, got, want);
            }
            for (auto& e : o.eps) {
                std::multiset<std::string> want;
                if (of(e.first).kind == TARGETED) {
                    for (auto& l : msgs) {
                        if (l.second == e.first) {
                            want.insert(of(l.first).name);
                        }
                    }
                } else {
                    for (int other : all(PLAIN)) {
                        want.insert(tagged(other, e.first));
                    }
                    std::multiset<std::string> sorted;
                    for (auto& g : arrived[e.first]) {
                        sorted.insert(sortTags(g));
                    }
                    arrived[e.first] = sorted;
                }
                compare("endpoint-links", of(e.first).name, arrived[e.first], want);
            }
            ++done;
            while (done < n) {
                sim::sleepNs(1'000'000);
            }
            fed.finalize();
        });
        brokerRequests.join();
        d.finish();
        if (!requests.empty()) {
            chk::nontrivial();
        }
        chk::count("reach.link_requests", requests.size());
    }
    static std::string sortTags(const std::string& s)
    {
        auto p = s.find('<');
        if (p == std::string::npos) {
            return s;
        }
        std::multiset<std::string> tags;
        size_t at = p;
        while (at < s.size()) {
            auto q = s.find('>', at);
            tags.insert(s.substr(at, q - at + 1));
            at = q + 1;
        }
        std::string r = s.substr(0, p);
        for (auto& t : tags) {
            r += t;
        }
        return r;
    }
    std::string tagged(int from, int to) const
    {
        std::string s = of(from).name;
        for (auto& l : srcFilters) {
            if (l.second == from) {
                s += "<" + of(l.first).name + ">";
            }
        }
        for (auto& l : dstFilters) {
            if (l.second == to) {
                s += "<" + of(l.first).name + ">";
            }
        }
        return sortTags(s);
    }
    static void compare(const char* cls, const std::string& who, const std::multiset<std::string>& got, const std::multiset<std::string>& want)
    {
        if (got == want) {
            return;
        }
        std::string t = who + " got";
        for (auto& g : got) {
            t += " [" + g + "]";
        }
        t += " instead of";
        for (auto& w : want) {
            t += " [" + w + "]";
        }
        chk::fail(cls, "%s", t.c_str());
    }
};

/** targets that nobody registers: a warning to who asked for it, or an error for everybody */
struct MissingTargets {
    enum Kind { PUB_SIDE, INPUT_SIDE, EP_SOURCE, EP_DEST, FILTER_SIDE, KINDS };
    struct Ask {
        int fed;
        Kind kind;
        int option;  // 0 default, 1 optional, 2 required
        std::string self, target;
        bool exists;
        uint64_t think;
    };
    int n{0};
    fx::Deployment d;
    std::vector<Ask> asks;
    bool strict{false};
    bool anyMissing{false}, anyRequired{false};

    static const char* word(int option) { return option == 0 ? "" : option == 1 ? "?" : "!"; }
    void run()
    {
        n = 1 + static_cast<int>(pick(4));
        d = fx::pickDeployment(n, fx::ANY);
        strict = flip(1, 8);
        if (strict) {
            d.rootArgs += " --error_on_unmatched";
        }
        const bool mayRequire = flip(1, 3);
        const int count = 1 + static_cast<int>(pick(6));
        std::string desc = d.str() + (strict ? " strict |" : " |");
        static const char* prefix[] = {"p", "i", "t", "u", "F"};
        for (int k = 0; k < count; ++k) {
            Ask a;
            a.fed = static_cast<int>(pick(static_cast<uint64_t>(n)));
            a.kind = static_cast<Kind>(pick(KINDS));
            a.option = static_cast<int>(pick(mayRequire ? 3 : 2));
            a.exists = flip(1, 3);
            a.self = prefix[a.kind] + std::to_string(k);
            a.target = (a.exists ? "there" : "none") + std::to_string(a.exists ? a.kind : static_cast<int>(pick(3)));
            a.think = pick(6);
            if (!a.exists) {
                anyMissing = true;
                anyRequired = anyRequired || a.option == 2;
            }
            desc += " " + a.self + "@" + std::to_string(a.fed) + ">" + a.target + word(a.option);
            asks.push_back(a);
        }
        const bool fails = anyRequired || (strict && anyMissing);
        chk::describe("%s", desc.c_str());
        fx::pickNetwork();
        d.start();
        int registered = 0;
        std::vector<std::vector<std::string>> logs(static_cast<size_t>(n));
        fx::runFederates(d, [&](int i) {
            auto fi = d.info(i);
            fi.setProperty(HELICS_PROPERTY_INT_LOG_LEVEL, HELICS_LOG_LEVEL_WARNING);
            CombinationFederate fed(d.fedName(i), fi);
            fed.setProperty(HELICS_PROPERTY_TIME_PERIOD, fx::fromNs(1000 * MS));
            fed.setLoggingCallback([&logs, i](int /*level*/, std::string_view /*who*/, std::string_view text) {
                logs[static_cast<size_t>(i)].emplace_back(text);
            });
            std::map<std::string, Publication*> pubs;
            std::map<std::string, Input*> inputs;
            if (i == 0) {
                inputs["there0"] = &fed.registerGlobalInput("there0", "string");
                pubs["there1"] = &fed.registerGlobalPublication("there1", "string");
                fed.registerGlobalTargetedEndpoint("there2");
                fed.registerGlobalTargetedEndpoint("there3");
                fed.registerGlobalEndpoint("there4");
            }
            for (auto& a : asks) {
                if (a.fed != i) {
                    continue;
                }
                fx::think(a.think);
                auto option = [&a](auto& x) {
                    if (a.option != 0) {
                        x.setOption(a.option == 1 ? HELICS_HANDLE_OPTION_CONNECTION_OPTIONAL : HELICS_HANDLE_OPTION_CONNECTION_REQUIRED, 1);
                    }
                };
                switch (a.kind) {
                    case PUB_SIDE: {
                        auto& x = fed.registerGlobalPublication(a.self, "string");
                        pubs[a.self] = &x;
                        option(x);
                        x.addDestinationTarget(a.target);
                    } break;
                    case INPUT_SIDE: {
                        auto& x = fed.registerGlobalInput(a.self, "string");
                        inputs[a.self] = &x;
                        option(x);
                        x.addTarget(a.target);
                    } break;
                    case EP_SOURCE: {
                        auto& x = fed.registerGlobalTargetedEndpoint(a.self);
                        option(x);
                        x.addSourceEndpoint(a.target);
                    } break;
                    case EP_DEST: {
                        auto& x = fed.registerGlobalTargetedEndpoint(a.self);
                        option(x);
                        x.addDestinationEndpoint(a.target);
                    } break;
                    default: {
                        auto& x = fed.registerGlobalFilter(a.self);
                        option(x);
                        x.addSourceTarget(a.target);
                    } break;
                }
            }
            ++registered;
            while (registered < n) {
                sim::sleepNs(1'000'000);
            }
            bool entered = false;
            try {
                fed.enterExecutingMode();
                entered = fed.getCurrentMode() == Federate::Modes::EXECUTING;
                if (entered) {
                    for (auto& p : pubs) {
                        p.second->publish(p.first);
                    }
                    fed.requestTime(fx::fromNs(1000 * MS));
                }
            }
            catch (const std::exception& e) {
                chk::trace("f%d: %s", i, e.what());
                if (!fails) {
                    chk::fail("refused", "f%d could not enter execution: %s", i, e.what());
                }
            }
            if (entered != !fails) {
                chk::fail(fails ? "entered-with-missing" : "not-entered", "f%d %s execution", i, entered ? "entered" : "did not enter");
            }
            if (entered) {
                for (auto& a : asks) {
                    if (!a.exists) {
                        continue;
                    }
                    if (a.kind == INPUT_SIDE && a.fed == i) {
                        const auto v = inputs[a.self]->getString();
                        if (v != "there1") {
                            chk::fail("existing-not-linked", "%s got '%s'", a.self.c_str(), v.c_str());
                        }
                    }
                    if (a.kind == PUB_SIDE && i == 0 && inputs["there0"]->getString().empty()) {
                        chk::fail("existing-not-linked", "there0 has no value");
                    }
                }
            }
            fed.finalize();
        });
        if (!fails) {
            for (int i = 0; i < n; ++i) {
                std::multiset<std::string> got, want;
                for (auto& line : logs[static_cast<size_t>(i)]) {
                    auto pos = line.find("Unable to connect");
                    if (pos != std::string::npos) {
                        got.insert(line.substr(line.rfind(' ') + 1));
                    }
                }
                for (auto& a : asks) {
                    if (a.fed == i && !a.exists && a.option == 0) {
                        want.insert(a.target);
                    }
                }
                // a filter belongs to its core: the warning is logged there
                for (auto& a : asks) {
                    if (a.fed == i && !a.exists && a.kind == FILTER_SIDE && a.option == 0) {
                        want.erase(want.find(a.target));
                    }
                }
                Links::compare("warnings", "the log of f" + std::to_string(i), got, want);
            }
        }
        chk::count(fails ? "reach.missing_required" : anyMissing ? "reach.missing_warned" : "reach.all_found");
        if (anyMissing) {
            chk::nontrivial();
        }
        d.finish(true);
    }
};

chk::Register rl("C16", "links", 25, [] {
    Links l;
    l.run();
});
chk::Register rm("C16", "missing", 25, [] {
    MissingTargets m;
    m.run();
});
}  // namespace
