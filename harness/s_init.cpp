// initialization and iteration
#include "fed.hpp"

#include <algorithm>
#include <atomic>
#include <mutex>
#include <set>

using namespace helics;
using chk::flip;
using chk::pick;

// ------------------------------------------------------------------ C08: the initialization barriers
static chk::Register c08a("C08", "barriers", 1, [] {
    const int n = 2 + static_cast<int>(pick(4));
    auto d = fx::pickDeployment(n);
    if (d.network()) {
        fx::pickNetwork();
    }
    struct F {
        uint64_t t0{0}, t1{0}, t2{0}, t3{0};
        bool direct{false}, async{false};
        std::vector<std::pair<int, int>> pubs;  // writes in initializing mode per publication
        std::vector<std::pair<int, int>> subs;  // publication (fed, index), style in `style`
        std::vector<int> style;
        std::vector<int> sends;  // endpoints of these federates get a message in initializing mode
        bool askedInit{false}, askedExec{false};
    };
    std::vector<F> f(static_cast<size_t>(n));
    for (auto& x : f) {
        x.t0 = pick(6);
        x.t1 = pick(6);
        x.t2 = pick(6);
        x.t3 = pick(4);
        x.direct = flip(1, 5);
        x.async = flip(1, 4);
        const auto np = pick(3);
        for (uint64_t k = 0; k < np; ++k) {
            x.pubs.emplace_back(x.direct ? 0 : static_cast<int>(pick(4)), 0);
        }
    }
    for (int i = 0; i < n; ++i) {
        auto& x = f[static_cast<size_t>(i)];
        for (int j = 0; j < n; ++j) {
            for (size_t k = 0; k < f[static_cast<size_t>(j)].pubs.size(); ++k) {
                if (flip(1, 2)) {
                    x.subs.emplace_back(j, static_cast<int>(k));
                    x.style.push_back(static_cast<int>(pick(3)));
                }
            }
            if (!x.direct && j != i && flip(1, 3)) {
                x.sends.push_back(j);
            }
        }
    }
    std::vector<std::set<int>> gotFrom(static_cast<size_t>(n));
    auto value = [](int fed, int pub, int write) { return fed * 1000.0 + pub * 100.0 + write + 0.5; };
    auto text = [](int fed, int pub, int write) {
        return fx::payload(std::to_string(fed) + "." + std::to_string(pub) + "." + std::to_string(write), 10 + 40 * static_cast<size_t>(write));
    };
    d.start();
    fx::runFederates(d, [&](int i) {
        auto& x = f[static_cast<size_t>(i)];
        fx::think(x.t0);
        auto fi = d.info(i);
        fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, 1.0);
        CombinationFederate fed(d.fedName(i), fi);
        std::vector<Publication*> pubs;
        for (size_t k = 0; k < x.pubs.size(); ++k) {
            pubs.push_back(&fed.registerGlobalPublication("p" + std::to_string(i) + "_" + std::to_string(k), k % 2 == 0 ? "double" : "string"));
        }
        std::vector<Input*> ins;
        for (size_t k = 0; k < x.subs.size(); ++k) {
            const auto key = "p" + std::to_string(x.subs[k].first) + "_" + std::to_string(x.subs[k].second);
            const bool num = x.subs[k].second % 2 == 0;
            Input* in = nullptr;
            switch (x.style[k]) {
                case 0:
                    in = &fed.registerSubscription(key);
                    break;
                case 1:
                    in = &fed.registerInput("i" + std::to_string(k), num ? "double" : "string");
                    in->addTarget(key);
                    break;
                default:
                    in = &fed.registerInput("i" + std::to_string(k), "");
                    fed.addTarget(*in, key);
                    break;
            }
            if (num) {
                in->setDefault(-7.25);
            } else {
                in->setDefault(std::string("nothing"));
            }
            ins.push_back(in);
        }
        auto& ep = fed.registerGlobalEndpoint("e" + std::to_string(i));
        auto entered = [&](bool exec) {
            for (int j = 0; j < n; ++j) {
                auto& y = f[static_cast<size_t>(j)];
                if (!(exec ? y.askedExec : y.askedInit)) {
                    chk::fail(exec ? "early-exec" : "early-init", "federate %d entered %s mode before federate %d asked to", i,
                              exec ? "executing" : "initializing", j);
                }
            }
        };
        fx::think(x.t1);
        if (!x.direct) {
            x.askedInit = true;
            if (x.async) {
                fed.enterInitializingModeAsync();
                fx::think(x.t3);
                fed.enterInitializingModeComplete();
            } else {
                fed.enterInitializingMode();
            }
            entered(false);
            if (fed.getCurrentMode() != Federate::Modes::INITIALIZING) {
                chk::fail("mode", "federate %d is not in initializing mode", i);
            }
            for (int w = 0; w < 3; ++w) {
                for (size_t k = 0; k < pubs.size(); ++k) {
                    if (w < x.pubs[k].first) {
                        if (k % 2 == 0) {
                            pubs[k]->publish(value(i, static_cast<int>(k), w));
                        } else {
                            pubs[k]->publish(text(i, static_cast<int>(k), w));
                        }
                    }
                }
            }
            for (int t : x.sends) {
                ep.sendTo("init from " + std::to_string(i), "e" + std::to_string(t));
            }
            fx::think(x.t2);
        }
        x.askedInit = true;
        x.askedExec = true;
        if (x.async) {
            fed.enterExecutingModeAsync();
            fx::think(x.t3);
            fed.enterExecutingModeComplete();
        } else {
            fed.enterExecutingMode();
        }
        entered(true);
        if (fed.getCurrentMode() != Federate::Modes::EXECUTING || fed.getCurrentTime() != timeZero) {
            chk::fail("mode", "federate %d in mode %d at time %g on entry of executing mode", i, static_cast<int>(fed.getCurrentMode()),
                      static_cast<double>(fed.getCurrentTime()));
        }
        for (size_t k = 0; k < ins.size(); ++k) {
            const int pf = x.subs[k].first;
            const int pk = x.subs[k].second;
            const int writes = std::min(3, f[static_cast<size_t>(pf)].pubs[static_cast<size_t>(pk)].first);
            const bool upd = ins[k]->isUpdated();
            if (upd != (writes > 0)) {
                chk::fail("init-update", "input for p%d_%d of federate %d: updated %d after %d values in initializing mode", pf, pk, i,
                          upd ? 1 : 0, writes);
            }
            if (pk % 2 == 0) {
                const double v = ins[k]->getValue<double>();
                const double e = writes > 0 ? value(pf, pk, writes - 1) : -7.25;
                if (v != e) {
                    chk::fail("init-value", "input for p%d_%d of federate %d shows %g on entry, expected %g", pf, pk, i, v, e);
                }
            } else {
                const auto v = ins[k]->getValue<std::string>();
                const auto e = writes > 0 ? text(pf, pk, writes - 1) : std::string("nothing");
                if (v != e) {
                    chk::fail("init-value", "input for p%d_%d of federate %d shows '%s' on entry, expected '%s'", pf, pk, i,
                              v.substr(0, 30).c_str(), e.substr(0, 30).c_str());
                }
            }
        }
        auto take = [&] {
            while (ep.hasMessage()) {
                auto m = ep.getMessage();
                const std::string s(m->data.to_string());
                const int from = s.rfind("init from ", 0) == 0 ? std::stoi(s.substr(10)) : -1;
                if (from < 0 || from >= n || m->source != "e" + std::to_string(from)) {
                    chk::fail("init-message", "federate %d received '%s' from %s", i, s.c_str(), m->source.c_str());
                }
                if (!gotFrom[static_cast<size_t>(i)].insert(from).second) {
                    chk::fail("init-message-twice", "federate %d received the message of %d twice", i, from);
                }
            }
        };
        take();
        const auto t = fed.requestTime(1.0);
        if (t != Time(1.0) && t != timeZero) {
            chk::fail("first-grant", "federate %d was granted %g", i, static_cast<double>(t));
        }
        take();
        for (int j = 0; j < n; ++j) {
            const auto& s = f[static_cast<size_t>(j)].sends;
            const bool sent = std::find(s.begin(), s.end(), i) != s.end();
            if (sent != (gotFrom[static_cast<size_t>(i)].count(j) != 0)) {
                chk::fail("init-message-lost", "federate %d: message of %d sent %d received %d", i, j, sent ? 1 : 0,
                          static_cast<int>(gotFrom[static_cast<size_t>(i)].count(j)));
            }
        }
        fed.finalize();
    });
    d.finish();
    chk::nontrivial();
    size_t links = 0;
    for (auto& x : f) {
        links += x.subs.size();
    }
    chk::describe("%s, %zu links", d.str().c_str(), links);
});

// ------------------------------------------------------------------ C09: iteration
namespace {
struct IterFed {
    uint64_t t{0};
    std::vector<int> from;  // sees the values of these federates
    std::vector<int> seeds;  // own contribution per stage
    bool async{false};
};
}  // namespace

/** every federate publishes the largest value it has seen, until nothing changes */
static void fixpoint(int maxFeds, bool timeSteps, int minFeds = 2, const std::vector<uint64_t>& shapes = {0, 2})
{
    const int n = minFeds + static_cast<int>(pick(static_cast<uint64_t>(maxFeds - minFeds + 1)));
    auto d = fx::pickDeployment(n);
    if (d.network()) {
        fx::pickNetwork();
    }
    const int stages = 1 + (timeSteps ? static_cast<int>(pick(3)) : 0);
    std::vector<IterFed> f(static_cast<size_t>(n));
    const auto shape = shapes[pick(shapes.size())];
    for (int i = 0; i < n; ++i) {
        auto& x = f[static_cast<size_t>(i)];
        x.t = pick(6);
        x.async = flip(1, 5);
        switch (shape) {
            case 0:  // everybody sees everybody
                for (int j = 0; j < n; ++j) {
                    if (j != i) {
                        x.from.push_back(j);
                    }
                }
                break;
            case 1:  // ring
                x.from.push_back((i + n - 1) % n);
                break;
            case 2:  // chain
                if (i > 0) {
                    x.from.push_back(i - 1);
                }
                break;
            default:
                for (int j = 0; j < n; ++j) {
                    if (j != i && flip(1, 2)) {
                        x.from.push_back(j);
                    }
                }
                break;
        }
        for (int s = 0; s < stages; ++s) {
            x.seeds.push_back(1 + static_cast<int>(pick(20)));
        }
    }
    // least fixed points per stage
    std::vector<std::vector<int>> want(static_cast<size_t>(stages), std::vector<int>(static_cast<size_t>(n)));
    for (int s = 0; s < stages; ++s) {
        auto& w = want[static_cast<size_t>(s)];
        for (int i = 0; i < n; ++i) {
            w[static_cast<size_t>(i)] = s * 100 + f[static_cast<size_t>(i)].seeds[static_cast<size_t>(s)];
        }
        for (bool again = true; again;) {
            again = false;
            for (int i = 0; i < n; ++i) {
                for (int j : f[static_cast<size_t>(i)].from) {
                    if (w[static_cast<size_t>(j)] > w[static_cast<size_t>(i)]) {
                        w[static_cast<size_t>(i)] = w[static_cast<size_t>(j)];
                        again = true;
                    }
                }
            }
        }
    }
    uint64_t iterations = 0;
    d.start();
    fx::runFederates(d, [&](int i) {
        auto& x = f[static_cast<size_t>(i)];
        auto fi = d.info(i);
        fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, 1.0);
        fi.setProperty(HELICS_PROPERTY_INT_MAX_ITERATIONS, 100);
        CombinationFederate fed(d.fedName(i), fi);
        auto& pub = fed.registerGlobalPublication<int64_t>("p" + std::to_string(i));
        std::vector<Input*> in;
        for (int j : x.from) {
            auto& ipt = fed.registerSubscription("p" + std::to_string(j));
            ipt.setDefault(int64_t{0});
            in.push_back(&ipt);
        }
        fed.enterInitializingMode();
        int64_t v = 0;
        for (int s = 0; s < stages; ++s) {
            chk::phase("stage " + std::to_string(s));
            v = std::max<int64_t>(v, s * 100 + x.seeds[static_cast<size_t>(s)]);
            int64_t last = -1;
            for (int k = 0;; ++k) {
                if (k > 60) {
                    chk::fail("no-convergence", "federate %d iterates for ever in stage %d", i, s);
                }
                fx::think((x.t + static_cast<uint64_t>(k)) % 6 == 5 ? 3 : x.t % 4);
                if (v != last) {
                    pub.publish(v);
                    last = v;
                }
                IterationResult r{};
                if (s == 0) {
                    if (x.async) {
                        fed.enterExecutingModeAsync(IterationRequest::ITERATE_IF_NEEDED);
                        r = fed.enterExecutingModeComplete();
                    } else {
                        r = fed.enterExecutingMode(IterationRequest::ITERATE_IF_NEEDED);
                    }
                } else {
                    iteration_time it;
                    if (x.async) {
                        fed.requestTimeIterativeAsync(Time(static_cast<double>(s)), IterationRequest::ITERATE_IF_NEEDED);
                        it = fed.requestTimeIterativeComplete();
                    } else {
                        it = fed.requestTimeIterative(Time(static_cast<double>(s)), IterationRequest::ITERATE_IF_NEEDED);
                    }
                    r = it.state;
                    const Time expect(static_cast<double>(r == IterationResult::ITERATING ? s - 1 : s));
                    if (it.grantedTime != expect) {
                        chk::fail("iteration-time", "federate %d was granted %g with iteration result %d in stage %d", i,
                                  static_cast<double>(it.grantedTime), static_cast<int>(r), s);
                    }
                }
                bool news = false;
                for (auto* ipt : in) {
                    news = news || ipt->isUpdated();
                    v = std::max<int64_t>(v, ipt->getValue<int64_t>());
                }
                chk::trace("f%d stage %d iteration %d result %d sees %d%s", i, s, k, static_cast<int>(r), static_cast<int>(v), news ? " updated" : "");
                if (r == IterationResult::ITERATING) {
                    ++iterations;
                    if (!news) {
                        chk::fail("idle-iteration", "federate %d iterates without new data in stage %d", i, s);
                    }
                    continue;
                }
                if (r != IterationResult::NEXT_STEP) {
                    chk::fail("iteration-result", "federate %d got result %d in stage %d", i, static_cast<int>(r), s);
                }
                break;
            }
            chk::trace("f%d stage %d done with %d", i, s, static_cast<int>(v));
            if (v != want[static_cast<size_t>(s)][static_cast<size_t>(i)]) {
                chk::fail("not-converged", "federate %d of %d left stage %d with %d, the fixed point is %d", i, n, s, static_cast<int>(v),
                          want[static_cast<size_t>(s)][static_cast<size_t>(i)]);
            }
            if (v != last) {
                chk::fail("late-data", "federate %d received data with the grant of stage %d", i, s);
            }
        }
        fed.finalize();
    });
    d.finish();
    if (iterations > 0) {
        chk::nontrivial();
    }
    chk::count("reach.iterations", iterations);
    chk::describe("%s, shape %d, %d stages, %d iterations", d.str().c_str(), static_cast<int>(shape), stages, static_cast<int>(iterations));
}

static chk::Register c09a("C09", "init_fixpoint", 3, [] { fixpoint(5, false); });
static chk::Register c09b("C09", "pair_fixpoint", 3, [] { fixpoint(2, true); });
// a directed ring of three federates: HELICS does not get through its iterations (known finding)
static chk::Register c09r(
    "C09",
    "init_ring",
    1,
    [] { fixpoint(3, false, 3, {1}); },
    [](sim::Config& c) { c.maxSimNs = 30'000'000'000ull; });

/** both federates force their iterations: each forced iteration ends, at the same time, and the values of the partner
    arrive in order and completely */
static chk::Register c09f("C09", "forced", 2, [] {
    auto d = fx::pickDeployment(2);
    if (d.network()) {
        fx::pickNetwork();
    }
    const bool inInit = flip(1, 2);
    const int rounds = 1 + static_cast<int>(pick(6));
    const uint64_t t[2] = {pick(6), pick(6)};
    int published[2] = {0, 0};
    d.start();
    fx::runFederates(d, [&](int i) {
        auto fi = d.info(i);
        fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, 1.0);
        CombinationFederate fed(d.fedName(i), fi);
        auto& pub = fed.registerGlobalPublication<int64_t>("p" + std::to_string(i));
        auto& in = fed.registerSubscription("p" + std::to_string(1 - i));
        in.setDefault(int64_t{0});
        fed.enterInitializingMode();
        if (!inInit) {
            fed.enterExecutingMode();
        }
        int64_t seen = 0;
        auto look = [&](const char* when) {
            const auto v = in.getValue<int64_t>();
            if (v < seen || v > published[1 - i]) {
                chk::fail("forced-value", "federate %d sees value %d of its partner %s, before that %d, published are %d", i, static_cast<int>(v),
                          when, static_cast<int>(seen), published[1 - i]);
            }
            seen = v;
        };
        for (int k = 0; k < rounds; ++k) {
            fx::think((t[i] + static_cast<uint64_t>(k)) % 6);
            ++published[i];
            pub.publish(static_cast<int64_t>(published[i]));
            IterationResult r{};
            if (inInit) {
                r = fed.enterExecutingMode(IterationRequest::FORCE_ITERATION);
            } else {
                const auto it = fed.requestTimeIterative(1.0, IterationRequest::FORCE_ITERATION);
                r = it.state;
                if (it.grantedTime != timeZero) {
                    chk::fail("forced-time", "federate %d was granted %g by a forced iteration", i, static_cast<double>(it.grantedTime));
                }
            }
            if (r != IterationResult::ITERATING) {
                chk::fail("forced-result", "federate %d got result %d from a forced iteration", i, static_cast<int>(r));
            }
            look("in an iteration");
        }
        if (inInit) {
            const auto r = fed.enterExecutingMode();
            if (r != IterationResult::NEXT_STEP) {
                chk::fail("forced-result", "federate %d got result %d on leaving the iterations", i, static_cast<int>(r));
            }
        } else {
            const auto g = fed.requestTime(1.0);
            if (g != Time(1.0)) {
                chk::fail("forced-time", "federate %d was granted %g after the iterations", i, static_cast<double>(g));
            }
        }
        look("at the end");
        if (seen != rounds) {
            chk::fail("forced-value", "federate %d sees value %d of its partner at the end, not %d", i, static_cast<int>(seen), rounds);
        }
        fed.finalize();
    });
    d.finish();
    chk::count("reach.forced_iterations", static_cast<uint64_t>(rounds));
    chk::nontrivial();
    chk::describe("%s, %d forced iterations %s", d.str().c_str(), rounds, inInit ? "of the initialization" : "of a time step");
});
