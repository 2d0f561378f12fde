// federations whose members step, publish, send and leave by a script
#pragma once
#include "fed.hpp"

#include <algorithm>
#include <array>
#include <map>
#include <set>

namespace life {
using namespace helics;
using chk::flip;
using chk::pick;

enum Leave { L_FINALIZE, L_DISCONNECT, L_DESTROY, L_ASYNC, L_PENDING, L_KINDS };

/** federates that step at 1 s, 2 s, ... (not interruptible), publish their step number to everybody and send scheduled
    messages to everybody; some leave early */
struct Stepper {
    struct F {
        int lastStep{0};  // leaves after this step; -1: in initializing mode, -2: before it
        int leave{L_FINALIZE};
        uint64_t think{0};
        uint64_t join{0};
        bool async{false};
        std::vector<int> subs;
        // messages: at step, to, delay in steps (0: at once)
        std::vector<std::array<int, 3>> msgs;
        // gets everything this one sends from its targeted endpoint, at each step
        std::set<int> targets;
    };
    bool targeted{false};
    int n{0};
    fx::Deployment d;
    std::vector<F> f;
    // ghost state
    std::vector<int> published;  // last step published
    std::vector<int64_t> leftAt;
    std::vector<std::map<std::string, int>> got;
    uint64_t lateCalls{0};
    /** think time between steps, instead of the script's */
    std::function<void(int, int)> pause;
    int done{0};
    int joined{0};

    void generate(int minFeds, int maxFeds, int steps, bool earlyInit, int maxBrokers = 3)
    {
        n = minFeds + static_cast<int>(pick(static_cast<uint64_t>(maxFeds - minFeds + 1)));
        d = fx::pickDeployment(n, fx::ANY, maxBrokers);
        f.resize(static_cast<size_t>(n));
        published.assign(f.size(), -1);
        leftAt.assign(f.size(), -1);
        got.resize(f.size());
        targeted = flip(1, 2);
        for (int i = 0; i < n; ++i) {
            auto& x = f[static_cast<size_t>(i)];
            x.lastStep = static_cast<int>(pick(static_cast<uint64_t>(steps) + 1));
            if (earlyInit && i > 0 && flip(1, 6)) {
                x.lastStep = -1 - static_cast<int>(pick(2));
            }
            x.leave = static_cast<int>(pick(L_KINDS));
            x.think = pick(6);
            x.join = pick(6);
            x.async = flip(1, 4);
            for (int j = 0; j < n; ++j) {
                if (j != i && flip(2, 3)) {
                    x.subs.push_back(j);
                }
                if (targeted && j != i && x.lastStep >= 0 && flip(1, 2)) {
                    x.targets.insert(j);
                }
                if (j != i && x.lastStep >= 0) {
                    for (uint64_t k = pick(3); k > 0; --k) {
                        x.msgs.push_back({static_cast<int>(pick(static_cast<uint64_t>(x.lastStep) + 1)), j, static_cast<int>(pick(5))});
                    }
                }
            }
        }
    }

    void run(const std::function<void(int, CombinationFederate&)>& afterwards = {})
    {
        fx::runFederates(d, [&](int i) {
            auto& x = f[static_cast<size_t>(i)];
            fx::think(x.join);
            auto fi = d.info(i);
            fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, 1.0);
            fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE);
            auto fed = std::make_unique<CombinationFederate>(d.fedName(i), fi);
            auto& pub = fed->registerGlobalPublication<int64_t>("p" + std::to_string(i));
            auto& ep = fed->registerGlobalEndpoint("e" + std::to_string(i));
            std::vector<Input*> in;
            for (int j : x.subs) {
                in.push_back(&fed->registerSubscription("p" + std::to_string(j)));
                in.back()->setDefault(int64_t{-1});
            }
            Endpoint* tep = nullptr;
            if (targeted) {
                tep = &fed->registerGlobalTargetedEndpoint("t" + std::to_string(i));
                for (int j : x.targets) {
                    tep->addDestinationTarget("t" + std::to_string(j));
                }
            }
            std::vector<int64_t> last(in.size(), -1);
            auto leave = [&] {
                chk::phase("fed" + std::to_string(i) + " leaves, kind " + std::to_string(x.leave));
                switch (x.leave) {
                    case L_DISCONNECT:
                        fed->disconnect();
                        break;
                    case L_DESTROY:
                        leftAt[static_cast<size_t>(i)] = static_cast<int64_t>(sim::nowNs());
                        fed.reset();
                        return;
                    case L_ASYNC:
                        fed->finalizeAsync();
                        fx::think(x.think);
                        fed->finalizeComplete();
                        break;
                    default:
                        fed->finalize();
                        break;
                }
                leftAt[static_cast<size_t>(i)] = static_cast<int64_t>(sim::nowNs());
                if (fed->getCurrentMode() != Federate::Modes::FINALIZE) {
                    chk::fail("mode", "federate %d is in mode %d after leaving", i, static_cast<int>(fed->getCurrentMode()));
                }
                // late calls end at once
                const auto t0 = sim::nowNs();
                if (fed->requestTime(100.0) != Time::maxVal()) {
                    chk::fail("late-call", "a federate that left was granted a time");
                }
                for (size_t k = 0; k < in.size(); ++k) {
                    if (in[k]->getValue<int64_t>() < last[k]) {
                        chk::fail("late-call", "an input changed to an older value after its federate left");
                    }
                }
                fed->finalize();
                fed->disconnect();
                if (sim::nowNs() - t0 > 1'000'000'000) {
                    chk::fail("late-call", "calls after leaving took %.3f s", static_cast<double>(sim::nowNs() - t0) * 1e-9);
                }
                ++lateCalls;
            };
            ++joined;
            if (x.lastStep == -2) {
                // a core whose only federate so far leaves is gone: later ones could not join it
                while (joined < n) {
                    sim::sleepNs(1'000'000);
                }
                fx::think(x.think);
                leave();
                return;
            }
            fed->enterInitializingMode();
            if (x.lastStep == -1) {
                fx::think(x.think);
                leave();
                return;
            }
            fed->enterExecutingMode();
            auto exchange = [&](int step) {
                for (size_t k = 0; k < in.size(); ++k) {
                    const int j = x.subs[k];
                    const auto v = in[k]->getValue<int64_t>();
                    const int most = std::min(step, f[static_cast<size_t>(j)].lastStep);
                    const int least = std::min(step - 1, f[static_cast<size_t>(j)].lastStep);
                    if (v < std::max(-1, least) || v > std::max(-1, most) || v < last[k]) {
                        chk::fail("value", "federate %d at %d s sees value %d of federate %d that leaves after %d s", i, step, static_cast<int>(v), j,
                                  f[static_cast<size_t>(j)].lastStep);
                    }
                    last[k] = v;
                }
                while (ep.hasMessage()) {
                    auto m = ep.getMessage();
                    const std::string s(m->data.to_string());
                    if (m->time > fed->getCurrentTime()) {
                        chk::fail("message-early", "federate %d at %d s received a message for %g s", i, step, static_cast<double>(m->time));
                    }
                    if (++got[static_cast<size_t>(i)][s] > 1) {
                        chk::fail("message-twice", "federate %d received '%s' twice", i, s.c_str());
                    }
                }
                while (tep != nullptr && tep->hasMessage()) {
                    auto m = tep->getMessage();
                    const std::string s(m->data.to_string());
                    if (m->time > fed->getCurrentTime()) {
                        chk::fail("message-early", "federate %d at %d s received a message for %g s", i, step, static_cast<double>(m->time));
                    }
                    if (m->source != "t" + s.substr(0, s.find('@'))) {
                        chk::fail("message-source", "federate %d received '%s' from %s", i, s.c_str(), m->source.c_str());
                    }
                    if (++got[static_cast<size_t>(i)][s] > 1) {
                        chk::fail("message-twice", "federate %d received '%s' twice", i, s.c_str());
                    }
                }
                for (int j = 0; j < n && targeted; ++j) {
                    const auto& y = f[static_cast<size_t>(j)];
                    for (int s = 0; s <= y.lastStep; ++s) {
                        const bool here = got[static_cast<size_t>(i)].count(std::to_string(j) + "@" + std::to_string(s)) != 0;
                        if (here && y.targets.count(i) == 0) {
                            chk::fail("message-stray", "federate %d is no target of federate %d", i, j);
                        }
                        if (!here && y.targets.count(i) != 0 && s < step) {
                            chk::fail("message-lost", "federate %d at %d s has not received the message federate %d sent to its targets at %d s (it leaves after %d s)",
                                      i, step, j, s, y.lastStep);
                        }
                    }
                }
                // what is due before now is here
                for (int j = 0; j < n; ++j) {
                    const auto& y = f[static_cast<size_t>(j)];
                    for (size_t k = 0; k < y.msgs.size(); ++k) {
                        const auto& m = y.msgs[k];
                        if (m[1] == i && m[0] + m[2] < step &&
                            got[static_cast<size_t>(i)].count(std::to_string(j) + "#" + std::to_string(k)) == 0) {
                            chk::fail("message-lost", "federate %d at %d s has not received the message federate %d sent at %d s for %d s (it leaves after %d s)",
                                      i, step, j, m[0], m[0] + m[2], y.lastStep);
                        }
                    }
                }
                for (size_t k = 0; k < x.msgs.size(); ++k) {
                    const auto& m = x.msgs[k];
                    if (m[0] != step) {
                        continue;
                    }
                    const auto text = std::to_string(i) + "#" + std::to_string(k);
                    if (m[2] == 0) {
                        ep.sendTo(text, "e" + std::to_string(m[1]));
                    } else {
                        ep.sendToAt(text, "e" + std::to_string(m[1]), Time(static_cast<double>(m[0] + m[2])));
                    }
                }
                if (tep != nullptr) {
                    tep->send(std::to_string(i) + "@" + std::to_string(step));
                }
                published[static_cast<size_t>(i)] = step;
                pub.publish(static_cast<int64_t>(step));
            };
            exchange(0);
            for (int s = 1; s <= x.lastStep; ++s) {
                if (pause) {
                    pause(i, s);
                } else {
                    fx::think((x.think + static_cast<uint64_t>(s)) % 7);
                }
                Time g;
                if (x.async) {
                    fed->requestTimeAsync(static_cast<double>(s));
                    fx::think(x.think);
                    g = fed->requestTimeComplete();
                } else {
                    g = fed->requestTime(static_cast<double>(s));
                }
                if (g != Time(static_cast<double>(s))) {
                    chk::fail("grant", "federate %d was granted %g, requested %d", i, static_cast<double>(g), s);
                }
                exchange(s);
            }
            if (afterwards) {
                afterwards(i, *fed);
            }
            if (x.leave == L_PENDING) {
                // a request that can be granted only when the others are through
                fed->requestTimeAsync(static_cast<double>(x.lastStep + 1));
            }
            leave();
        });
    }
};
}  // namespace life
