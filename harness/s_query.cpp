// Queries (C17), commands (C18) and time barriers (C19) in a running federation
#include "life.hpp"

#include "helics/core/helics_definitions.hpp"
#include "helics/common/JsonProcessingFunctions.hpp"

#include <deque>
#include <nlohmann/json.hpp>

namespace {
using namespace helics;
using chk::flip;
using chk::pick;
using json = nlohmann::json;

HelicsSequencingModes mode(bool ordered)
{
    return ordered ? HELICS_SEQUENCING_MODE_ORDERED : HELICS_SEQUENCING_MODE_FAST;
}

struct QueryRun {
    enum Kind {
        EXISTS,
        NOT_EXISTS,
        STATE,
        PUBLICATIONS,
        INPUTS,
        ENDPOINTS,
        TAG,
        CUSTOM,
        CURRENT_STATE,
        GLOBAL_TIME_FED,
        ROOT_FEDERATES,
        ROOT_PUBLICATIONS,
        ROOT_ENDPOINTS,
        ROOT_COUNTS,
        ROOT_CORES,
        CORE_FEDERATES,
        ISINIT,
        NAME,
        MAP_FEDERATES,
        MAP_GLOBAL_TIME,
        MAP_DATA_FLOW,
        MAP_STATE,
        FLUSH,
        GLOBAL_VALUE,
        BAD_QUERY,
        CORE_EXISTS,
        SUBSCRIPTIONS,
        MAP_DEPENDENCIES,
        GLOBAL_STATUS,
        CORE_CONNECTED,
        BROKER_NAME,
        KINDS
    };
    struct Q {
        int kind, target, how;  // how: bit 0 ordered, bit 1 asynchronous
        uint64_t think;
    };
    struct F {
        int steps{0};
        uint64_t think{0}, join{0};
        std::vector<std::vector<Q>> at;  // index 0: initializing mode, then after grant s
        std::vector<int> subs;
    };
    int n{0};
    fx::Deployment d;
    std::vector<F> f;
    std::vector<Q> outside;
    // ghost
    std::vector<int64_t> lower, upper;  // granted time of a federate is in [lower,upper], ns
    std::vector<int> phase;  // 0 starting, 1 initializing, 2 executing, 3 leaving
    bool allInit{false};
    int left{0};
    std::vector<std::pair<int, int>> globals;  // per federate: last started and last finished value
    int answered{0};
    int asking{0};       // queries under way that take federates to answer
    uint64_t asked{0};   // all those made so far

    Q make()
    {
        Q q{};
        q.kind = static_cast<int>(pick(KINDS));
        q.target = static_cast<int>(pick(static_cast<uint64_t>(n)));
        q.how = static_cast<int>(pick(4));
        q.think = pick(5);
        return q;
    }
    void generate()
    {
        n = 1 + static_cast<int>(pick(4));
        d = fx::pickDeployment(n, fx::ANY, 3);
        f.resize(static_cast<size_t>(n));
        for (int i = 0; i < n; ++i) {
            auto& x = f[static_cast<size_t>(i)];
            x.steps = 1 + static_cast<int>(pick(4));
            x.think = pick(6);
            x.join = pick(6);
            x.at.resize(static_cast<size_t>(x.steps) + 1);
            for (auto& a : x.at) {
                for (auto k = pick(4); k > 0; --k) {
                    a.push_back(make());
                }
            }
            for (int j = 0; j < n; ++j) {
                if (j != i && flip(1, 2)) {
                    x.subs.push_back(j);
                }
            }
        }
        for (auto k = pick(8); k > 0; --k) {
            outside.push_back(make());
        }
        lower.assign(f.size(), 0);
        upper.assign(f.size(), 0);
        phase.assign(f.size(), 0);
        globals.assign(f.size(), {0, 0});
    }
    static std::set<std::string> strings(const json& j)
    {
        std::set<std::string> s;
        for (const auto& e : j) {
            s.insert(e.get<std::string>());
        }
        if (s.size() != j.size()) {
            chk::fail("answer-duplicates", "%s", j.dump().c_str());
        }
        return s;
    }
    std::set<std::string> all(const char* prefix) const
    {
        std::set<std::string> s;
        for (int i = 0; i < n; ++i) {
            s.insert(prefix + std::to_string(i));
        }
        return s;
    }
    static bool isError(const json& j) { return j.is_object() && j.contains("error"); }
    /** every object of the tree with an attribute name that satisfies the prefix, with the whole object */
    static void collect(const json& j, const std::function<void(const json&)>& fn)
    {
        if (j.is_object()) {
            if (j.contains("attributes") || j.contains("name")) {
                fn(j);
            }
            for (const auto& e : j.items()) {
                if (e.key() != "attributes") {
                    collect(e.value(), fn);
                }
            }
        } else if (j.is_array()) {
            for (const auto& e : j) {
                collect(e, fn);
            }
        }
    }
    static std::string nameOf(const json& j)
    {
        if (j.contains("attributes") && j["attributes"].contains("name")) {
            return j["attributes"]["name"].get<std::string>();
        }
        return j.contains("name") && j["name"].is_string() ? j["name"].get<std::string>() : std::string{};
    }

    static bool isMap(int k)
    {
        return k == MAP_FEDERATES || k == MAP_GLOBAL_TIME || k == MAP_DATA_FLOW || k == MAP_STATE || k == MAP_DEPENDENCIES;
    }
    /** whether it takes the federates themselves to answer */
    static bool needsFederates(int k)
    {
        return isMap(k) || k == FLUSH || k == GLOBAL_STATUS || k == STATE || k == PUBLICATIONS || k == INPUTS || k == ENDPOINTS || k == TAG || k == CUSTOM ||
            k == CURRENT_STATE || k == GLOBAL_TIME_FED || k == SUBSCRIPTIONS || k == ISINIT || k == BAD_QUERY;
    }
    /** maps can be asked of the root and of a core */
    bool coreScope(const Q& q) const { return isMap(q.kind) && q.think >= 2; }

    std::string text(const Q& q, std::string& target) const
    {
        auto what = textOf(q, target);
        if (coreScope(q)) {
            target = d.coreName(d.coreOf[static_cast<size_t>(q.target)]);
        }
        return what;
    }
    std::string textOf(const Q& q, std::string& target) const
    {
        const auto t = d.fedName(q.target);
        target = t;
        switch (q.kind) {
            case EXISTS: return "exists";
            case NOT_EXISTS: target = "nobody"; return "exists";
            case STATE: return "state";
            case PUBLICATIONS: return "publications";
            case INPUTS: return "inputs";
            case ENDPOINTS: return "endpoints";
            case TAG: return "tag/color";
            case CUSTOM: return "custom" + std::to_string(q.think);
            case CURRENT_STATE: return "current_state";
            case GLOBAL_TIME_FED: return "global_time";
            case SUBSCRIPTIONS: return "subscriptions";
            case ROOT_FEDERATES: target = "root"; return "federates";
            case ROOT_PUBLICATIONS: target = "root"; return "publications";
            case ROOT_ENDPOINTS: target = "root"; return "endpoints";
            case ROOT_COUNTS: target = "root"; return "counts";
            case ROOT_CORES: target = "root"; return "cores";
            case CORE_FEDERATES: target = d.coreName(d.coreOf[static_cast<size_t>(q.target)]); return "federates";
            case CORE_EXISTS: target = d.coreName(d.coreOf[static_cast<size_t>(q.target)]); return "exists";
            case CORE_CONNECTED: target = d.coreName(d.coreOf[static_cast<size_t>(q.target)]); return "isconnected";
            case BROKER_NAME: target = q.think >= 3 ? "root" : d.brokerName(0); return "name";
            case ISINIT: return "isinit";
            case NAME: target = d.coreName(d.coreOf[static_cast<size_t>(q.target)]); return "name";
            case MAP_FEDERATES: target = "root"; return "federate_map";
            case MAP_GLOBAL_TIME: target = "root"; return "global_time";
            case GLOBAL_STATUS: target = "root"; return "global_status";
            case MAP_DATA_FLOW: target = "root"; return "data_flow_graph";
            case MAP_STATE: target = "root"; return "global_state";
            case MAP_DEPENDENCIES: target = "root"; return "dependency_graph";
            case FLUSH: target = "root"; return "global_flush";
            case GLOBAL_VALUE: target = "global_value"; return "g" + std::to_string(q.target);
            default: return "no_such_query";
        }
    }

    struct Before {
        bool init, gone;
        std::vector<int64_t> lower;
        std::vector<int> phase;
        int global;
        uint64_t t;
        int others;
        uint64_t number;
    };
    Before before(const Q& q)
    {
        const auto others = asking;
        if (needsFederates(q.kind)) {
            ++asking;
            ++asked;
        }
        return {allInit, left > 0, lower, phase, globals[static_cast<size_t>(q.target)].second, sim::nowNs(), others, asked};
    }
    void judge(const Q& q, const Before& b, const std::string& answer, int asker = -1)
    {
        std::string target;
        const auto what = text(q, target);
        const double took = static_cast<double>(sim::nowNs() - b.t) * 1e-9;
        chk::trace("query '%s' of '%s' how %d took %.3f: %s", what.c_str(), target.c_str(), q.how, took, answer.c_str());
        auto bad = [&](const char* why) {
            chk::fail(std::string("answer-") + why, "query '%s' of '%s' (how %d, %s, %s) was answered after %.3f s by %s", what.c_str(), target.c_str(), q.how,
                      b.init ? "all are initialized" : "not all are initialized", b.gone || left > 0 ? "some have left" : "all are there", took,
                      answer.c_str());
        };
        if (needsFederates(q.kind)) {
            --asking;
        }
        if (took > 20.1 && (q.how & 2) == 0) {
            bad("late");
        }
        // A federate that waits for an answer itself does not answer what had to be queued for it, so overlapping queries can wait for each other:
        // then they end by the timeout.
        // a datagram does not take the larger structures
        const bool lossy = d.type == "udp" && (isMap(q.kind) || q.kind == GLOBAL_STATUS);
        if (needsFederates(q.kind) && (lossy || b.others > 0 || asked != b.number) && took > 14 && answer.find("query timeout") != std::string::npos) {
            chk::count("reach.mutual_timeouts");
            return;
        }
        if (answer.empty()) {
            bad("empty");
        }
        if (q.kind == SUBSCRIPTIONS) {
            return;
        }
        if (q.kind == GLOBAL_VALUE) {
            if (left > 0) {
                return;
            }
            const auto v = std::atoi(answer.c_str());
            if (answer[0] == '{') {
                // only the order of what one federate asks is kept
                if (b.global > 0 && asker == q.target) {
                    bad("global");
                }
                return;
            }
            if (v > globals[static_cast<size_t>(q.target)].first || v < (asker == q.target ? b.global : 0)) {
                bad("global");
            }
            return;
        }
        if (took > 14 && b.init && !lossy && left == 0 && (q.how & 2) == 0 && !(needsFederates(q.kind) && (b.others > 0 || asked != b.number))) {
            bad("late");
        }
        if (left > 0 && answer == "#disconnected") {
            return;
        }
        json j;
        try {
            j = json::parse(answer);
        }
        catch (const std::exception&) {
            bad("json");
        }
        // whoever leaves takes the knowledge along, and before initialization not everything is known
        if (!b.init) {
            return;
        }
        if (left > 0) {
            return;
        }
        ++answered;
        chk::count("reach.judged_answers");
        const auto ti = static_cast<size_t>(q.target);
        const auto sub = std::to_string(q.target);
        switch (q.kind) {
            case EXISTS:
            case ISINIT:
            case CORE_EXISTS:
            case CORE_CONNECTED:
                if (answer != "true") {
                    bad("wrong");
                }
                break;
            case NOT_EXISTS:
                if (answer != "false") {
                    bad("wrong");
                }
                break;
            case STATE: {
                // the broker answers with its own view of a member
                static const std::set<std::string> good{"connected", "init_requested", "operating", "initializing", "executing"};
                if (!j.is_string() || good.count(j.get<std::string>()) == 0) {
                    bad("wrong");
                }
                if (b.phase[ti] == 2 && j.get<std::string>() == "initializing") {
                    bad("state");
                }
            } break;
            case PUBLICATIONS:
                if (strings(j) != std::set<std::string>{"p" + sub}) {
                    bad("wrong");
                }
                break;
            case INPUTS:
                if (strings(j) != std::set<std::string>{"i" + sub}) {
                    bad("wrong");
                }
                break;
            case ENDPOINTS:
                if (strings(j) != std::set<std::string>{"e" + sub}) {
                    bad("wrong");
                }
                break;
            case TAG:
                if (j.get<std::string>() != "color" + sub) {
                    bad("wrong");
                }
                break;
            case CUSTOM:
                if (!j.is_string() || j.get<std::string>() != sub + ":" + what) {
                    bad("wrong");
                }
                break;
            case SUBSCRIPTIONS:
                break;
            case CURRENT_STATE:
            case GLOBAL_TIME_FED: {
                if (nameOf(j) != target || !j.contains("granted_time")) {
                    bad("wrong");
                }
                const auto g = static_cast<int64_t>(j["granted_time"].get<double>() * 1e9 + 0.5);
                if (b.phase[ti] == 2 && (g < b.lower[ti] || g > upper[ti])) {
                    bad("time");
                }
            } break;
            case ROOT_FEDERATES:
                if (strings(j) != all("f")) {
                    bad("wrong");
                }
                break;
            case ROOT_PUBLICATIONS:
                if (strings(j) != all("p")) {
                    bad("wrong");
                }
                break;
            case ROOT_ENDPOINTS:
                if (strings(j) != all("e")) {
                    bad("wrong");
                }
                break;
            case ROOT_COUNTS:
                if (j["federates"].get<int>() != n || j["countable_federates"].get<int>() != n ||
                    j["brokers"].get<int>() != static_cast<int>(d.coreFeds.size()) + d.brokerCount - 1) {
                    bad("wrong");
                }
                break;
            case ROOT_CORES: {
                std::set<std::string> s;
                for (size_t c = 0; c < d.coreFeds.size(); ++c) {
                    s.insert(d.coreName(static_cast<int>(c)));
                }
                if (strings(j) != s) {
                    bad("wrong");
                }
            } break;
            case CORE_FEDERATES: {
                std::set<std::string> s;
                for (int i = 0; i < n; ++i) {
                    if (d.coreOf[static_cast<size_t>(i)] == d.coreOf[ti]) {
                        s.insert(d.fedName(i));
                    }
                }
                if (strings(j) != s) {
                    bad("wrong");
                }
            } break;
            case NAME:
                if (!j.is_string() || j.get<std::string>() != target) {
                    bad("wrong");
                }
                break;
            case BROKER_NAME:
                if (!j.is_string() || j.get<std::string>() != d.brokerName(0)) {
                    bad("wrong");
                }
                break;
            case MAP_FEDERATES:
            case MAP_GLOBAL_TIME:
            case MAP_DATA_FLOW:
            case MAP_STATE:
            case MAP_DEPENDENCIES:
            case GLOBAL_STATUS: {
                if (isError(j)) {
                    bad("error");
                }
                std::multiset<std::string> feds;
                collect(j, [&](const json& o) {
                    const auto name = nameOf(o);
                    for (int i = 0; i < n; ++i) {
                        if (name != d.fedName(i)) {
                            continue;
                        }
                        const auto si = static_cast<size_t>(i);
                        feds.insert(name);
                        if (q.kind == MAP_GLOBAL_TIME && o.contains("granted_time") && b.phase[si] == 2) {
                            const auto g = static_cast<int64_t>(o["granted_time"].get<double>() * 1e9 + 0.5);
                            // a map that was being put together already is shared
                            if ((b.others == 0 && g < b.lower[si]) || g > upper[si]) {
                                bad("time");
                            }
                        }
                        if (q.kind == MAP_STATE && b.others == 0 && b.phase[si] == 2 && o.contains("state") && o["state"].is_string() &&
                            o["state"].get<std::string>() != "executing") {
                            bad("state");
                        }
                    }
                });
                if (q.kind == GLOBAL_STATUS) {
                    break;
                }
                for (int i = 0; i < n; ++i) {
                    const bool in = !coreScope(q) || d.coreOf[static_cast<size_t>(i)] == d.coreOf[ti];
                    if (feds.count(d.fedName(i)) != (in ? 1U : 0U)) {
                        bad("incomplete");
                    }
                }
            } break;
            case FLUSH:
                if (isError(j)) {
                    bad("error");
                }
                break;
            case BAD_QUERY:
                if (!isError(j)) {
                    bad("wrong");
                }
                break;
            default:
                break;
        }
    }

    void ask(int i, Federate& fed, std::vector<Q>& qs)
    {
        std::vector<std::pair<QueryId, std::pair<Q, Before>>> open;
        for (auto& q : qs) {
            fx::think(q.think);
            std::string target;
            auto what = text(q, target);
            if (target == d.fedName(i) && q.kind == CUSTOM) {
                continue;  // answered by the same thread
            }
            const auto b = before(q);
            chk::phase("fed" + std::to_string(i) + " asks " + target + " for " + what + " how " + std::to_string(q.how));
            if ((q.how & 2) != 0 && target != d.fedName(i)) {
                {
                    // the caller's strings need not outlive the call
                    std::string t2 = target + std::string(40, 'x');
                    std::string w2 = what + std::string(40, 'y');
                    t2.resize(target.size());
                    w2.resize(what.size());
                    open.push_back({fed.queryAsync(t2, w2, mode((q.how & 1) != 0)), {q, b}});
                    for (auto& c : t2) {
                        c = '#';
                    }
                    for (auto& c : w2) {
                        c = '#';
                    }
                }
                chk::count("reach.async_queries");
            } else {
                judge(q, b, fed.query(target, what, mode((q.how & 1) != 0)), i);
            }
        }
        // in another order than asked
        while (!open.empty()) {
            const auto k = pick(open.size());
            auto [id, qb] = open[k];
            open.erase(open.begin() + static_cast<long>(k));
            if (qb.first.think % 2 == 0) {
                int polls = 0;
                while (!fed.isQueryCompleted(id)) {
                    sim::sleepNs(20'000'000);
                    if (++polls > 1500) {
                        chk::fail("async-never", "an asynchronous query is not completed after 30 s");
                    }
                }
            }
            judge(qb.first, qb.second, fed.queryComplete(id));
        }
    }

    void run()
    {
        fx::pickNetwork();
        chk::describe("%s", d.str().c_str());
        d.start();
        bool stop = false;
        std::thread observer([&] {
            sim::nameFiber("observer");
            sim::setNode(fx::Deployment::brokerNode(0));
            for (auto& q : outside) {
                if (stop) {
                    break;
                }
                fx::think(q.think + 1);
                if (q.how & 2) {
                    sim::sleepNs(300'000'000);
                }
                auto& br = d.brokers[(q.how & 2) != 0 && flip(1, 3) ? d.brokers.size() - 1 : 0];
                if (!br || !br->isConnected() || left > 0) {
                    continue;
                }
                std::string target;
                auto what = text(q, target);
                const auto b = before(q);
                chk::phase("observer asks " + target + " for " + what);
                judge(q, b, br->query(target, what, mode((q.how & 1) != 0)));
                chk::count("reach.broker_queries");
            }
        });
        int inits = 0;
        fx::runFederates(d, [&](int i) {
            const auto si = static_cast<size_t>(i);
            auto& x = f[si];
            const auto is = std::to_string(i);
            fx::think(x.join);
            auto fi = d.info(i);
            fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, 1.0);
            fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE);
            auto fed = std::make_unique<CombinationFederate>(d.fedName(i), fi);
            fed->setTag("color", "color" + is);
            fed->setQueryCallback([is](std::string_view q) -> std::string {
                return q.starts_with("custom") ? "\"" + is + ":" + std::string(q) + "\"" : std::string{};
            });
            auto& pub = fed->registerGlobalPublication<int64_t>("p" + is);
            auto& in = fed->registerGlobalInput<int64_t>("i" + is);
            for (auto j : x.subs) {
                in.addTarget("p" + std::to_string(j));
            }
            fed->registerGlobalEndpoint("e" + is);
            fed->enterInitializingMode();
            phase[si] = 1;
            if (++inits == n) {
                allInit = true;
            }
            ask(i, *fed, x.at[0]);
            fed->enterExecutingMode();
            phase[si] = 2;
            for (int s = 1; s <= x.steps; ++s) {
                globals[si].first = s;
                fed->setGlobal("g" + is, std::to_string(s));
                globals[si].second = s;
                pub.publish(static_cast<int64_t>(s));
                upper[si] = s * 1'000'000'000LL;
                fx::think((x.think + static_cast<uint64_t>(s)) % 7);
                const auto g = fed->requestTime(static_cast<double>(s));
                if (g != Time(static_cast<double>(s))) {
                    chk::fail("grant", "federate %d was granted %g, requested %d", i, static_cast<double>(g), s);
                }
                lower[si] = fx::ns(g);
                ask(i, *fed, x.at[static_cast<size_t>(s)]);
            }
            phase[si] = 3;
            ++left;
            fed->finalize();
        });
        stop = true;
        observer.join();
        d.finish();
        if (answered > 0) {
            chk::nontrivial();
        }
    }
};

chk::Register rq("C17", "answers", 4, [] {
    QueryRun r;
    r.generate();
    r.run();
});

}  // namespace
