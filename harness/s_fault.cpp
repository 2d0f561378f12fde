// stalls and slow networks, crashes and partitions
#include "life.hpp"

using namespace life;

namespace {
std::vector<int> nodesOf(const fx::Deployment& d)
{
    std::vector<int> v;
    for (int b = 0; b < d.brokerCount; ++b) {
        v.push_back(fx::Deployment::brokerNode(b));
    }
    for (size_t c = 0; c < d.coreFeds.size(); ++c) {
        v.push_back(fx::Deployment::coreNode(static_cast<int>(c)));
    }
    return v;
}
const char* nodeName(int node)
{
    static std::string s;
    s = node >= 100 ? "broker b" + std::to_string(node - 100) : "core c" + std::to_string(node - 1);
    return s.c_str();
}
}  // namespace

// ------------------------------------------------------------------ C14
// processes stall and packets are slow, but never as long as the timeouts
static chk::Register c14a("C14", "stalls", 3, [] {
    Stepper s;
    s.generate(2, 4, 6, false);
    const auto scale = 1 + pick(4);
    s.pause = [&](int i, int step) {
        static const uint64_t t[] = {0, 100'000'000, 1'000'000'000, 4'000'000'000, 7'000'000'000};
        const auto v = t[(s.f[static_cast<size_t>(i)].think + static_cast<uint64_t>(step)) % 5] * scale / 2;
        if (v != 0) {
            sim::sleepNs(v);
        }
    };
    if (s.d.network()) {
        fx::pickNetwork();
    }
    const auto nodes = nodesOf(s.d);
    s.d.start();
    bool over = false;
    std::thread saboteur([&] {
        const auto n = 1 + sim::choose(sim::K_FAULT, 8);
        for (uint64_t k = 0; k < n && !over; ++k) {
            static const uint64_t gaps[] = {0, 5'000'000, 300'000'000, 2'000'000'000, 6'000'000'000};
            sim::sleepNs(gaps[sim::choose(sim::K_FAULT, 5)] + sim::choose(sim::K_FAULT, 1000) * 1'000'000);
            if (over) {
                break;
            }
            static const uint64_t lens[] = {50'000'000, 1'000'000'000, 4'000'000'000, 9'000'000'000, 22'000'000'000};
            // connecting has a timeout of its own, of 4 s
            const auto len = lens[sim::choose(sim::K_FAULT, s.joined < s.n ? 2 : 5)];
            const int node = nodes[sim::choose(sim::K_FAULT, nodes.size())];
            chk::count("fault.stalls");
            chk::count(len >= 4'000'000'000 ? "fault.stalls_of_4s_or_more" : "fault.short_stalls");
            chk::trace("stall %s for %g s", nodeName(node), static_cast<double>(len) * 1e-9);
            sim::stallNode(node, len);
            sim::sleepNs(len);
            if (len > 4'000'000'000) {
                // a chance to catch up, so that stalls do not add up to more than the timeout
                sim::sleepNs(6'000'000'000);
            }
        }
    });
    s.run();
    over = true;
    saboteur.join();
    const auto t0 = sim::nowNs();
    s.d.finish();
    chk::nontrivial();
    chk::describe("%s, brokers gone %.3f s after the last federate", s.d.str().c_str(), static_cast<double>(sim::nowNs() - t0) * 1e-9);
});

// ------------------------------------------------------------------ C13
namespace {
enum Crash { C_PROCESS, C_MACHINE, C_CUT, C_NUM };
const char* crashName[] = {"process crash", "machine crash", "permanent partition"};

struct CrashRun {
    int n{0};
    fx::Deployment d;
    Crash kind{C_PROCESS};
    int victim{0};  // node
    uint64_t delay{0};
    int trigger{0};  // the crash comes after that many events of federates
    int64_t crashAt{-1};
    int events{0};
    int steps{0};
    int joined{0};
    int inits{0};
    bool async{false};
    std::vector<uint64_t> thinks, joins;
    std::vector<int> how, mode, ended;
    std::vector<std::vector<int>> subs;
    std::vector<std::shared_ptr<Core>> cores;
    int errors{0}, normal{0};
    double worst{0};
    bool quickTimeout{false};
    bool allDone{false};

    [[nodiscard]] bool dead(int node) const { return crashAt >= 0 && kind != C_CUT && node == victim; }

    void generate()
    {
        n = 2 + static_cast<int>(pick(3));
        d = fx::pickDeployment(n, fx::NETWORK_ONLY, 3);
        kind = static_cast<Crash>(pick(C_NUM));
        const auto nodes = nodesOf(d);
        victim = nodes[pick(nodes.size())];
        steps = 3 + static_cast<int>(pick(6));
        trigger = static_cast<int>(pick(static_cast<uint64_t>(n * (steps + 4))));
        static const uint64_t delays[] = {0, 10'000, 300'000, 2'000'000, 50'000'000};
        delay = delays[pick(5)];
        quickTimeout = flip(1, 2);
        if (quickTimeout) {
            d.brokerArgs += " --timeout=8s --tick=2s";
            d.coreArgs += " --timeout=8s --tick=2s";
        }
        async = flip(1, 3);
        ended.assign(static_cast<size_t>(n), 0);
        cores.resize(static_cast<size_t>(n));
        for (int i = 0; i < n; ++i) {
            thinks.push_back(pick(6));
            joins.push_back(pick(6));
            how.push_back(static_cast<int>(pick(4)));
            subs.emplace_back();
            for (int j = 0; j < n; ++j) {
                if (j != i && flip(2, 3)) {
                    subs.back().push_back(j);
                }
            }
        }
    }
    /** how long after the crash a call may take to end */
    [[nodiscard]] double limit() const { return quickTimeout ? 120.0 : 200.0; }
    void bounded(const char* what, int i, int64_t since)
    {
        if (crashAt < 0) {
            return;
        }
        const auto t = static_cast<double>(static_cast<int64_t>(sim::nowNs()) - std::max(since, crashAt)) * 1e-9;
        worst = std::max(worst, t);
        if (t > limit()) {
            chk::fail("slow", "%s of federate %d took %.3f s after the %s of %s", what, i, t, crashName[kind], nodeName(victim));
        }
    }
    void federate(int i)
    {
        const auto ix = static_cast<size_t>(i);
        fx::think(joins[ix]);
        std::unique_ptr<CombinationFederate> fed;
        std::string text;
        bool errored{false};
        auto start = static_cast<int64_t>(sim::nowNs());
        const char* what = "creation";
        auto call = [&](const char* w) {
            ++events;
            bounded(what, i, start);
            what = w;
            start = static_cast<int64_t>(sim::nowNs());
        };
        try {
            auto fi = d.info(i);
            fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, 1.0);
            fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE);
            fed = std::make_unique<CombinationFederate>(d.fedName(i), fi);
            cores[ix] = fed->getCorePointer();
            auto& pub = fed->registerGlobalPublication<int64_t>("p" + std::to_string(i));
            auto& ep = fed->registerGlobalEndpoint("e" + std::to_string(i));
            std::vector<Input*> in;
            for (int j : subs[ix]) {
                in.push_back(&fed->registerSubscription("p" + std::to_string(j)));
                in.back()->setDefault(int64_t{0});
            }
            std::vector<int64_t> last(in.size(), 0);
            ++joined;
            while (joined < n && crashAt < 0) {
                sim::sleepNs(1'000'000);
            }
            call("entering initializing mode");
            fed->enterInitializingMode();
            ++inits;
            call("entering executing mode");
            fed->enterExecutingMode();
            for (int s = 1; s <= steps; ++s) {
                pub.publish(static_cast<int64_t>(s));
                ep.sendTo("x", "e" + std::to_string((i + 1) % n));
                fx::think((thinks[ix] + static_cast<uint64_t>(s)) % 7);
                call("a time request");
                Time g;
                if (async) {
                    fed->requestTimeAsync(static_cast<double>(s));
                    fx::think(thinks[ix]);
                    g = fed->requestTimeComplete();
                } else {
                    g = fed->requestTime(static_cast<double>(s));
                }
                if (g != Time(static_cast<double>(s))) {
                    if (crashAt >= 0 && g == Time::maxVal()) {
                        errored = true;
                        text = "granted maxVal";
                        break;
                    }
                    chk::fail("grant", "federate %d was granted %g, requested %d", i, static_cast<double>(g), s);
                }
                for (size_t k = 0; k < in.size(); ++k) {
                    const auto v = in[k]->getValue<int64_t>();
                    if (v < last[k] || v > s + 1 || (crashAt < 0 && v < s)) {
                        chk::fail("value", "federate %d at %d s sees value %d of federate %d", i, s, static_cast<int>(v), subs[ix][k]);
                    }
                    last[k] = v;
                }
            }
        }
        catch (const HelicsException& e) {
            errored = true;
            text = e.what();
        }
        bounded(what, i, start);
        if (errored) {
            ++errors;
            chk::trace("federate %d in %s: %s", i, what, text.c_str());
            if (crashAt < 0) {
                chk::fail("unexpected-error", "federate %d in %s: %s", i, what, text.c_str());
            }
        } else {
            ++normal;
        }
        ++events;
        if (!fed) {
            return;
        }
        start = static_cast<int64_t>(sim::nowNs());
        chk::phase("fed" + std::to_string(i) + " leaves");
        switch (how[ix]) {
            case 0:
                fed->finalize();
                break;
            case 1:
                fed->disconnect();
                break;
            case 2:
                fed->finalize();
                fed.reset();
                break;
            default:
                fed.reset();
                break;
        }
        bounded("leaving", i, start);
        ++events;
    }

    void crash()
    {
        crashAt = static_cast<int64_t>(sim::nowNs());
        chk::phase(std::string(crashName[kind]) + " of " + nodeName(victim));
        chk::trace("%s of %s", crashName[kind], nodeName(victim));
        static const char* counters[] = {"fault.process_crash", "fault.machine_crash", "fault.permanent_partition"};
        chk::count(counters[kind]);
        chk::count(victim == 100 ? "fault.on_root_broker" : victim > 100 ? "fault.on_sub_broker" : "fault.on_core");
        if (kind != C_PROCESS) {
            for (int o : nodesOf(d)) {
                if (o != victim) {
                    simnet::cut(victim, o);
                }
            }
        }
        if (kind != C_CUT) {
            sim::killNode(victim);
        }
        if (kind == C_PROCESS) {
            simnet::killNodeConnections(victim);
        }
    }

    void run()
    {
        std::vector<std::thread> th;
        for (int i = 0; i < n; ++i) {
            th.emplace_back([this, i] {
                sim::nameFiber("fed" + std::to_string(i));
                sim::setNode(d.fedNode(i));
                try {
                    federate(i);
                }
                catch (const std::exception& e) {
                    chk::fail("unexpected-exception", "fed%d: %s", i, e.what());
                }
                ended[static_cast<size_t>(i)] = 1;
            });
        }
        auto over = [&] {
            for (int i = 0; i < n; ++i) {
                if (ended[static_cast<size_t>(i)] == 0 && !dead(d.fedNode(i))) {
                    return false;
                }
            }
            return true;
        };
        // before that, nothing distinguishes a crashed member from one that joins later
        while (!over() && (inits < n || events < trigger)) {
            sim::sleepNs(50'000);
        }
        sim::sleepNs(delay);
        if (!over()) {
            crash();
        }
        const auto t0 = sim::nowNs();
        while (!over()) {
            sim::sleepNs(5'000'000);
            if (static_cast<double>(sim::nowNs() - t0) * 1e-9 > 3 * limit() + 60) {
                std::string s;
                for (int i = 0; i < n; ++i) {
                    if (ended[static_cast<size_t>(i)] == 0 && !dead(d.fedNode(i))) {
                        s += " " + std::to_string(i);
                    }
                }
                chk::trace("%s", sim::describeFibers().c_str());
                chk::fail("stuck", "federates%s are still blocked %.0f s after the %s of %s", s.c_str(), 3 * limit() + 60, crashName[kind], nodeName(victim));
            }
        }
        for (int i = 0; i < n; ++i) {
            if (ended[static_cast<size_t>(i)] != 0) {
                th[static_cast<size_t>(i)].join();
            } else {
                th[static_cast<size_t>(i)].detach();
            }
        }
        // everything that is left terminates
        chk::phase("termination");
        const auto t1 = static_cast<int64_t>(sim::nowNs());
        for (int b = 0; b < d.brokerCount; ++b) {
            if (!dead(fx::Deployment::brokerNode(b)) && !d.brokers[static_cast<size_t>(b)]->waitForDisconnect(std::chrono::milliseconds(static_cast<int>(limit() * 1000)))) {
                chk::trace("%s", sim::describeFibers().c_str());
                chk::fail("broker-not-disconnected", "broker b%d is still connected %.0f s after all federates finalized (%s of %s)", b,
                          static_cast<double>(static_cast<int64_t>(sim::nowNs()) - t1) * 1e-9, crashName[kind], crashAt < 0 ? "-" : nodeName(victim));
            }
        }
        for (int i = 0; i < n; ++i) {
            auto& c = cores[static_cast<size_t>(i)];
            if (c && !dead(d.fedNode(i)) && !c->waitForDisconnect(std::chrono::milliseconds(static_cast<int>(limit() * 1000)))) {
                chk::trace("%s", sim::describeFibers().c_str());
                chk::fail("core-not-disconnected", "core of federate %d is still connected %.0f s after all federates finalized (%s of %s)", i,
                          static_cast<double>(static_cast<int64_t>(sim::nowNs()) - t1) * 1e-9, crashName[kind], crashAt < 0 ? "-" : nodeName(victim));
            }
        }
    }
};
}  // namespace

static chk::Register c13a("C13", "crash", 1, [] {
    // not destroyed: what has crashed is frozen as it was
    auto& s = *new CrashRun;
    s.generate();
    fx::pickNetwork();
    s.d.start();
    s.run();
    if (s.crashAt >= 0) {
        chk::nontrivial();
    }
    chk::describe("%s, %s of %s at %.3f s, %d federates with an error, %d without, slowest call %.1f s", s.d.str().c_str(), crashName[s.kind], nodeName(s.victim),
                  static_cast<double>(s.crashAt) * 1e-9, s.errors, s.normal, s.worst);
});
