// life and end of federations: fault-free termination, early leavers
#include "life.hpp"

using namespace life;

// ------------------------------------------------------------------ C10, C11
static chk::Register c10a("C10", "whole_life", 600, [] {
    Stepper s;
    s.generate(1, 6, 5, false);
    if (s.d.network()) {
        fx::pickNetwork();
    }
    s.d.start();
    s.run();
    const auto t0 = sim::nowNs();
    s.d.finish();
    chk::nontrivial();
    chk::describe("%s, brokers gone %.3f s after the last federate", s.d.str().c_str(), static_cast<double>(sim::nowNs() - t0) * 1e-9);
});
// counters of time requests pass their limits
static void longLife(int steps, int maxFeds)
{
    const int n = 2 + static_cast<int>(pick(static_cast<uint64_t>(maxFeds - 1)));
    auto d = fx::pickDeployment(n, maxFeds == 2 ? fx::LOCAL_ONLY : fx::ANY);
    std::vector<bool> skip;
    std::vector<int> step, to;
    for (int i = 0; i < n; ++i) {
        step.push_back(1 + static_cast<int>(pick(2)));
        to.push_back(static_cast<int>((static_cast<uint64_t>(i) + 1 + pick(static_cast<uint64_t>(n) - 1)) % static_cast<uint64_t>(n)));
    }
    if (d.network()) {
        fx::pickNetwork();
    }
    d.start();
    fx::runFederates(d, [&](int i) {
        const auto u = static_cast<size_t>(i);
        auto fi = d.info(i);
        fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, 1.0);
        fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE);
        CombinationFederate fed(d.fedName(i), fi);
        auto& pub = fed.registerGlobalPublication<int64_t>("p" + std::to_string(i));
        auto& ep = fed.registerGlobalEndpoint("e" + std::to_string(i));
        auto& in = fed.registerSubscription("p" + std::to_string(to[u]));
        in.setDefault(int64_t{0});
        fed.enterExecutingMode();
        const auto other = static_cast<size_t>(to[u]);
        int64_t received = 0;
        for (int s = 0; s <= steps; s += step[u]) {
            if (s > 0 && fed.requestTime(static_cast<double>(s)) != Time(static_cast<double>(s))) {
                chk::fail("grant", "federate %d was not granted %d s", i, s);
            }
            const auto v = in.getValue<int64_t>();
            // the last step of the other one before this time, or at this time
            const int64_t least = s == 0 ? 0 : (s - 1) / step[other] * step[other];
            if (v < least || v > s) {
                chk::fail("value", "federate %d at %d s sees value %d of federate %d", i, s, static_cast<int>(v), to[u]);
            }
            while (ep.hasMessage()) {
                ep.getMessage();
                ++received;
            }
            if (s % 10 == 0) {
                ep.sendTo("m", "e" + std::to_string(to[u]));
            }
            pub.publish(static_cast<int64_t>(s));
        }
        int64_t sent = 0;
        for (int j = 0; j < n; ++j) {
            if (to[static_cast<size_t>(j)] == i) {
                for (int s = 0; s < steps / step[u] * step[u]; s += step[static_cast<size_t>(j)]) {
                    sent += s % 10 == 0 ? 1 : 0;
                }
            }
        }
        if (received < sent) {
            chk::fail("message-lost", "federate %d received %d messages of %d", i, static_cast<int>(received), static_cast<int>(sent));
        }
        fed.finalize();
    });
    d.finish();
    chk::nontrivial();
    chk::count("reach.requests", static_cast<uint64_t>(steps));
    chk::describe("%s, %d steps", d.str().c_str(), steps);
}
static chk::Register c10l("C10", "long_life", 8, [] { longLife(400 + static_cast<int>(pick(600)), 4); }, [](sim::Config& c) { c.maxSteps = 40'000'000; });
static chk::Register c10w("C10", "wrap_around", 1, [] { longLife(33500, 2); }, [](sim::Config& c) { c.maxSteps = 400'000'000; });

static void leavers(bool earlyInit)
{
    Stepper s;
    // leaving before executing mode below two levels of brokers is too much for the time coordination at times
    s.generate(2, 5, 6, earlyInit, earlyInit ? 2 : 3);
    if (s.d.network()) {
        fx::pickNetwork();
    }
    s.d.start();
    s.run();
    s.d.finish();
    int early = 0;
    for (auto& x : s.f) {
        early += x.lastStep < 0 ? 1 : 0;
    }
    chk::count("fault.left_before_executing", static_cast<uint64_t>(early));
    chk::nontrivial();
    chk::describe("%s, %d left before executing mode", s.d.str().c_str(), early);
}
static chk::Register c11a("C11", "leavers", 2, [] { leavers(false); });
static chk::Register c11b("C11", "leavers_init", 2, [] { leavers(true); });
