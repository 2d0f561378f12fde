// errors raised by members of a federation
#include "fed.hpp"

#include <algorithm>
#include <helics/core/Broker.hpp>
#include <helics/core/Core.hpp>

using namespace helics;
using chk::flip;
using chk::pick;

namespace {
enum Kind { K_FED_GLOBAL, K_CORE_GLOBAL, K_BROKER_GLOBAL, K_LOCAL_FLAG, K_LOCAL_BROKER_FLAG, K_LOCAL, K_NUM };
const char* kindName[] = {"global error of a federate", "global error of a core", "global error of a broker", "local error, federate terminates on error",
                          "local error, brokers terminate on error", "local error"};

struct ErrorRun {
    int n{0};
    fx::Deployment d;
    Kind kind{K_LOCAL};
    int victim{0};
    int when{0};  // -2 before, -1 in initializing mode, otherwise after that many steps
    int brokerIndex{0};
    bool async{false};
    std::vector<uint64_t> thinks, joins;
    std::vector<int> how;
    std::vector<std::vector<int>> subs;
    // ghost
    int64_t errorAt{-1};
    int joined{0};
    int seen{0};
    int steps{0};
    std::vector<int> left;

    [[nodiscard]] bool global() const { return kind != K_LOCAL; }

    void generate(bool globalKind)
    {
        n = 2 + static_cast<int>(pick(4));
        d = fx::pickDeployment(n);
        async = flip(1, 3);
        kind = globalKind ? static_cast<Kind>(pick(K_LOCAL)) : K_LOCAL;
        victim = static_cast<int>(pick(static_cast<uint64_t>(n)));
        when = static_cast<int>(pick(7)) - 2;
        brokerIndex = static_cast<int>(pick(static_cast<uint64_t>(d.brokerCount)));
        steps = 4 + static_cast<int>(pick(5));
        left.assign(static_cast<size_t>(n), 0);
        if (kind == K_LOCAL_BROKER_FLAG) {
            d.rootArgs += " --terminate_on_error";
            d.brokerArgs += " --terminate_on_error";
        }
        for (int i = 0; i < n; ++i) {
            thinks.push_back(pick(6));
            joins.push_back(pick(6));
            how.push_back(static_cast<int>(pick(4)));
            subs.emplace_back();
            for (int j = 0; j < n; ++j) {
                if (j != i && flip(2, 3)) {
                    subs.back().push_back(j);
                }
            }
        }
    }

    void raise(CombinationFederate& fed)
    {
        errorAt = static_cast<int64_t>(sim::nowNs());
        chk::phase(std::string("raises ") + kindName[kind] + " at " + std::to_string(when));
        static const char* counters[] = {"fault.federate_global_error", "fault.core_global_error", "fault.broker_global_error", "fault.local_error_fed_flag",
                                         "fault.local_error_broker_flag", "fault.local_error"};
        chk::count(counters[kind]);
        switch (kind) {
            case K_FED_GLOBAL:
                fed.globalError(77, "the error");
                break;
            case K_CORE_GLOBAL:
                fed.getCorePointer()->globalError(gLocalCoreId, 77, "the error");
                break;
            case K_BROKER_GLOBAL:
                d.brokers[static_cast<size_t>(brokerIndex)]->globalError(77, "the error");
                break;
            default:
                fed.localError(77, "the error");
                break;
        }
    }

    void bounded(const char* what, int i, int64_t since, double most)
    {
        const auto t = static_cast<double>(static_cast<int64_t>(sim::nowNs()) - since) * 1e-9;
        if (t > most) {
            chk::fail("slow", "%s of federate %d took %.3f s", what, i, t);
        }
    }

    void leave(int i, std::unique_ptr<CombinationFederate>& fed)
    {
        const auto t0 = static_cast<int64_t>(sim::nowNs());
        chk::phase("fed" + std::to_string(i) + " leaves");
        switch (how[static_cast<size_t>(i)]) {
            case 0:
                fed->finalize();
                break;
            case 1:
                fed->disconnect();
                break;
            case 2:
                fed->finalize();
                fed.reset();
                break;
            default:
                fed.reset();
                break;
        }
        left[static_cast<size_t>(i)] = 1;
        bounded("leaving", i, t0, 60.0);
        if (fed) {
            const auto t1 = static_cast<int64_t>(sim::nowNs());
            try {
                fed->requestTime(1000.0);
            }
            catch (const HelicsException&) {
            }
            fed->finalize();
            bounded("late calls", i, t1, 1.0);
        }
    }

    void run()
    {
        fx::runFederates(d, [&](int i) {
            const auto ix = static_cast<size_t>(i);
            fx::think(joins[ix]);
            std::unique_ptr<CombinationFederate> fed;
            bool raised{false};
            bool errored{false};
            std::string text;
            try {
                auto fi = d.info(i);
                fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, 1.0);
                fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE);
                if (kind == K_LOCAL_FLAG) {
                    fi.setFlagOption(HELICS_FLAG_TERMINATE_ON_ERROR);
                }
                fed = std::make_unique<CombinationFederate>(d.fedName(i), fi);
                auto& pub = fed->registerGlobalPublication<int64_t>("p" + std::to_string(i));
                auto& ep = fed->registerGlobalEndpoint("e" + std::to_string(i));
                for (int j : subs[ix]) {
                    fed->registerSubscription("p" + std::to_string(j)).setDefault(int64_t{-1});
                }
                ++joined;
                while (joined < n) {
                    sim::sleepNs(1'000'000);
                }
                auto isTime = [&](int at) {
                    if (i == victim && when == at) {
                        fx::think(thinks[ix]);
                        raised = true;
                        raise(*fed);
                        return kind != K_CORE_GLOBAL && kind != K_BROKER_GLOBAL;
                    }
                    return false;
                };
                if (!isTime(-2)) {
                    fed->enterInitializingMode();
                    if (!isTime(-1)) {
                        fed->enterExecutingMode();
                        for (int s = 1;; ++s) {
                            pub.publish(static_cast<int64_t>(s));
                            ep.sendTo("x", "e" + std::to_string((i + 1) % n));
                            if (isTime(s - 1)) {
                                break;
                            }
                            if (!global() && s > steps) {
                                break;
                            }
                            fx::think((thinks[ix] + static_cast<uint64_t>(s)) % 7);
                            Time g;
                            if (async) {
                                fed->requestTimeAsync(static_cast<double>(s));
                                fx::think(thinks[ix]);
                                g = fed->requestTimeComplete();
                            } else {
                                g = fed->requestTime(static_cast<double>(s));
                            }
                            if (g != Time(static_cast<double>(s))) {
                                if (global() && errorAt >= 0 && g == Time::maxVal()) {
                                    errored = true;
                                    text = "granted maxVal";
                                    break;
                                }
                                chk::fail("grant", "federate %d was granted %g, requested %d", i, static_cast<double>(g), s);
                            }
                            if (global() && errorAt >= 0 && static_cast<int64_t>(sim::nowNs()) - errorAt > 30'000'000'000) {
                                chk::fail("goes-on", "federate %d is still granted times %.3f s after the %s", i,
                                          static_cast<double>(static_cast<int64_t>(sim::nowNs()) - errorAt) * 1e-9, kindName[kind]);
                            }
                        }
                    }
                }
            }
            catch (const HelicsException& e) {
                errored = true;
                text = e.what();
            }
            const auto now = static_cast<int64_t>(sim::nowNs());
            if (errored) {
                ++seen;
                if (errorAt < 0 || (!global() && i != victim)) {
                    chk::fail("unexpected-error", "federate %d: %s", i, text.c_str());
                }
                if (now - errorAt > 60'000'000'000) {
                    chk::fail("late-error", "federate %d learned of the error after %.3f s: %s", i, static_cast<double>(now - errorAt) * 1e-9, text.c_str());
                }
            }
            if (raised || errored) {
                const auto mode = fed->getCurrentMode();
                if (mode != Federate::Modes::ERROR_STATE && mode != Federate::Modes::FINISHED && mode != Federate::Modes::FINALIZE) {
                    chk::fail("mode", "federate %d is in mode %d after the error (%s)", i, static_cast<int>(fed->getCurrentMode()), text.c_str());
                }
            }
            leave(i, fed);
        });
    }
};
}  // namespace

static void errors(bool global)
{
    ErrorRun s;
    s.generate(global);
    if (s.d.network()) {
        fx::pickNetwork();
    }
    s.d.start();
    s.run();
    s.d.finish();
    chk::nontrivial();
    chk::describe("%s, %s at %d, %d others saw it", s.d.str().c_str(), kindName[s.kind], s.when, s.seen);
}
static chk::Register c12a("C12", "global_error", 3, [] { errors(true); });
static chk::Register c12b("C12", "local_error", 1, [] { errors(false); });
