// Real-time mode, grant timeouts and the maximum duration (C23): the clock decides
#include "fed.hpp"

#include <algorithm>
#include <cmath>

namespace {
using namespace helics;
using chk::flip;
using chk::pick;

constexpr int64_t MS = 1'000'000;

/** real-time federates among others that are fast, slow or both */
struct RealTime {
    struct F {
        bool rt{false};
        int64_t step{1000};  // ms
        int64_t lag{0}, lead{0};  // ms; lag < 0: none
        int style{0};  // how they are set
        std::vector<int> subs;
        std::vector<int64_t> work;  // ms before each request
        bool interruptible{false};
    };
    int n{0};
    fx::Deployment d;
    std::vector<F> f;
    int64_t end{0};  // ms
    std::vector<std::vector<int64_t>> published;

    void generate()
    {
        n = 2 + static_cast<int>(pick(3));
        d = fx::pickDeployment(n, fx::ANY, 2);
        end = 1000 * static_cast<int64_t>(2 + pick(5));
        static const int64_t steps[] = {250, 500, 1000};
        static const int64_t lags[] = {-1, 20, 100, 400, 1500};
        static const int64_t leads[] = {10, 50, 200, 700};
        f.resize(static_cast<size_t>(n));
        const auto realTimers = 1 + pick(static_cast<uint64_t>(n));
        for (int i = 0; i < n; ++i) {
            auto& x = f[static_cast<size_t>(i)];
            x.rt = static_cast<uint64_t>(i) < realTimers;
            x.step = steps[pick(3)];
            x.lag = lags[pick(5)];
            x.lead = leads[pick(4)];
            x.style = static_cast<int>(pick(2));
            if (x.style == 1 && x.lag >= 0) {
                x.lead = x.lag;  // one tolerance for both
            }
            for (int j = 0; j < n; ++j) {
                if (j != i && flip(2, 3)) {
                    x.subs.push_back(j);
                }
            }
            x.interruptible = flip(1, 4);
            const auto habit = pick(4);
            for (int64_t t = 0; t <= end; t += x.step) {
                static const int64_t works[] = {0, 3, 40, 150, 900, 2500};
                x.work.push_back(works[habit == 0 ? 0 : pick(habit == 1 ? 3 : habit == 2 ? 5 : 6)]);
            }
        }
        published.resize(f.size());
    }
    [[nodiscard]] std::string str() const
    {
        std::string s = d.str() + " to " + std::to_string(end) + " ms |";
        for (int i = 0; i < n; ++i) {
            auto& x = f[static_cast<size_t>(i)];
            s += " f" + std::to_string(i) + "(step " + std::to_string(x.step);
            if (x.rt) {
                s += " lag " + std::to_string(x.lag) + " lead " + std::to_string(x.lead);
            }
            s += x.interruptible ? " interruptible work" : " work";
            for (auto w : x.work) {
                s += " " + std::to_string(w);
            }
            s += ")";
        }
        return s;
    }
    void run()
    {
        chk::describe("%s", str().c_str());
        fx::pickNetwork();
        d.start();
        fx::runFederates(d, [&](int i) {
            auto& x = f[static_cast<size_t>(i)];
            auto fi = d.info(i);
            fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, fx::fromNs(x.step * MS));
            fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE, !x.interruptible);
            if (x.rt) {
                fi.setFlagOption(HELICS_FLAG_REALTIME);
                if (x.style == 1 && x.lag >= 0) {
                    fi.setProperty(HELICS_PROPERTY_TIME_RT_TOLERANCE, fx::fromNs(x.lag * MS));
                } else {
                    fi.setProperty(HELICS_PROPERTY_TIME_RT_LAG, x.lag < 0 ? Time::maxVal() : fx::fromNs(x.lag * MS));
                    fi.setProperty(HELICS_PROPERTY_TIME_RT_LEAD, fx::fromNs(x.lead * MS));
                }
            }
            CombinationFederate fed(d.fedName(i), fi);
            auto& pub = fed.registerGlobalPublication<int64_t>("p" + std::to_string(i));
            std::vector<Input*> in;
            for (int j : x.subs) {
                in.push_back(&fed.registerSubscription("p" + std::to_string(j)));
                in.back()->setDefault(int64_t{-1});
            }
            std::vector<int64_t> last(in.size(), -1);
            fed.enterExecutingMode();
            const auto start = static_cast<int64_t>(sim::nowNs());
            int64_t granted = 0;
            for (size_t k = 0; granted < end; ++k) {
                pub.publish(granted);
                published[static_cast<size_t>(i)].push_back(granted);
                if (x.work[std::min(k, x.work.size() - 1)] > 0) {
                    sim::sleepNs(static_cast<uint64_t>(x.work[std::min(k, x.work.size() - 1)] * MS));
                }
                const auto asked = static_cast<int64_t>(sim::nowNs()) - start;
                const auto goal = granted + x.step * (x.interruptible ? 2 : 1);
                const auto g = fx::ns(fed.requestTime(fx::fromNs(goal * MS)));
                const auto now = static_cast<int64_t>(sim::nowNs()) - start;
                if (x.interruptible ? g <= granted * MS || g > goal * MS || g % (x.step * MS) != 0 : g != goal * MS) {
                    chk::fail("grant", "f%d was at %d ms, asked for %d ms and was granted %g ms", i, static_cast<int>(granted), static_cast<int>(goal),
                              static_cast<double>(g) / 1e6);
                }
                granted = g / MS;
                const int64_t slack = 2 * MS;  // between the clock of the federate and the one here
                if (x.rt) {
                    if (now < (granted - x.lead - 5) * MS - slack) {
                        chk::fail("too-early", "f%d is at %d ms after %g ms, its lead is %d ms", i, static_cast<int>(granted), static_cast<double>(now) / 1e6,
                                  static_cast<int>(x.lead));
                    }
                    const auto latest = std::max({asked, (goal + x.lag) * MS, (goal - x.lead) * MS});
                    if (x.lag >= 0 && now > latest + 10 * slack) {
                        chk::fail("too-late", "f%d got %d ms after %g ms, asked after %g ms, its lag is %d ms", i, static_cast<int>(goal),
                                  static_cast<double>(now) / 1e6, static_cast<double>(asked) / 1e6, static_cast<int>(x.lag));
                    }
                    if (x.lag >= 0 && now > (goal + x.lag) * MS - slack) {
                        chk::count("reach.at_the_lag");
                    }
                    if (now > asked + slack && now < (granted - x.lead) * MS + slack) {
                        chk::count("reach.at_the_lead");
                    }
                }
                for (size_t m = 0; m < in.size(); ++m) {
                    const auto v = in[m]->getValue<int64_t>();
                    if (v < last[m] || v > granted) {
                        chk::fail("value", "f%d at %d ms sees %d of f%d after %d", i, static_cast<int>(goal), static_cast<int>(v), x.subs[m],
                                  static_cast<int>(last[m]));
                    }
                    last[m] = v;
                    // a grant before the lag is over was not forced: nothing is missed
                    const bool forced = x.rt && x.lag >= 0 && now >= (goal + x.lag) * MS - slack;
                    int64_t due = -1;
                    for (auto t : published[static_cast<size_t>(x.subs[m])]) {
                        due = t < granted ? t : due;
                    }
                    if (!forced && v < due) {
                        chk::fail("value-missing", "f%d at %d ms after %g ms sees %d of f%d, %d was published", i, static_cast<int>(granted),
                                  static_cast<double>(now) / 1e6, static_cast<int>(v), x.subs[m], static_cast<int>(due));
                    }
                }
            }
            fed.finalize();
        });
        d.finish();
        chk::nontrivial();
    }
};

/** a federate that waits longer than its grant timeout says so, at the right moments, and nothing else changes */
void grantTimeout()
{
    const int n = 2 + static_cast<int>(pick(2));
    auto d = fx::pickDeployment(n, fx::ANY, 2);
    const int64_t limit = 100 * static_cast<int64_t>(1 + pick(20));  // ms
    const int steps = 2 + static_cast<int>(pick(4));
    const int how = static_cast<int>(pick(3));  // 0: info, 1: property while starting, 2: property when executing
    const int setAt = how == 2 ? static_cast<int>(pick(static_cast<uint64_t>(steps))) : 0;
    const bool early = how != 2 && flip(1, 8);  // leaves before executing
    std::vector<std::vector<int64_t>> work(static_cast<size_t>(n));
    std::string desc = d.str() + " limit " + std::to_string(limit) + " ms |";
    for (int i = 1; i < n; ++i) {
        desc += " f" + std::to_string(i);
        for (int s = 0; s < steps; ++s) {
            static const int64_t part[] = {0, 5, 5, 15, 35, 75, 120};  // tenths of the limit
            work[static_cast<size_t>(i)].push_back(limit * part[pick(7)] / 10);
            desc += " " + std::to_string(work[static_cast<size_t>(i)].back());
        }
    }
    chk::describe("%s, set %d at %d%s", desc.c_str(), how, setAt, early ? ", leaves early" : "");
    if (d.network()) {
        fx::pickNetwork();
    }
    d.start();
    std::vector<std::string> log;
    std::vector<int64_t> logAt;
    int registered = 0;
    fx::runFederates(d, [&](int i) {
        auto fi = d.info(i);
        fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, 1.0);
        fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE);
        if (i == 0 && how == 0) {
            fi.setProperty(HELICS_PROPERTY_TIME_GRANT_TIMEOUT, fx::fromNs(limit * MS));
        }
        if (i == 0) {
            fi.setProperty(HELICS_PROPERTY_INT_LOG_LEVEL, HELICS_LOG_LEVEL_WARNING);
        }
        CombinationFederate fed(d.fedName(i), fi);
        auto& pub = fed.registerGlobalPublication<int64_t>("p" + std::to_string(i));
        auto& in = fed.registerInput<int64_t>("in");
        for (int j = 0; j < n; ++j) {
            if (j != i && i == 0) {
                in.addTarget("p" + std::to_string(j));
            }
        }
        if (i == 0) {
            fed.setLoggingCallback([&](int, std::string_view, std::string_view text) {
                log.emplace_back(text);
                logAt.push_back(static_cast<int64_t>(sim::nowNs()));
            });
            if (how == 1) {
                fed.setProperty(HELICS_PROPERTY_TIME_GRANT_TIMEOUT, fx::fromNs(limit * MS));
            }
        }
        ++registered;
        while (registered < n) {
            sim::sleepNs(1'000'000);
        }
        if (i == 0 && early) {
            if (flip(1, 2)) {
                fed.enterInitializingMode();
            }
            fed.finalize();
            return;
        }
        fed.enterExecutingMode();
        for (int s = 1; s <= steps; ++s) {
            pub.publish(static_cast<int64_t>(s));
            if (i == 0 && how == 2 && s - 1 == setAt) {
                fed.setProperty(HELICS_PROPERTY_TIME_GRANT_TIMEOUT, fx::fromNs(limit * MS));
            }
            if (i != 0) {
                sim::sleepNs(static_cast<uint64_t>(work[static_cast<size_t>(i)][static_cast<size_t>(s - 1)] * MS));
            }
            const auto t0 = static_cast<int64_t>(sim::nowNs());
            const auto before = log.size();
            const auto g = fed.requestTime(static_cast<double>(s));
            const auto t1 = static_cast<int64_t>(sim::nowNs());
            if (g != Time(static_cast<double>(s))) {
                chk::fail("grant", "f%d was granted %g, requested %d", i, static_cast<double>(g), s);
            }
            if (i != 0 || (how == 2 && s - 1 < setAt)) {
                continue;
            }
            const auto waited = t1 - t0;
            static const char* stages[] = {"grant timeout exceeded", "grant timeout stage 2", "grant timeout stage 3", "grant timeout stage 4"};
            static const int64_t after[] = {1, 4, 7, 11};
            // messages are logged by a thread of their own
            sim::sleepNs(10'000'000);
            for (int k = 0; k < 4; ++k) {
                int seen = 0;
                for (size_t m = before; m < log.size(); ++m) {
                    if (log[m].find(stages[k]) != std::string::npos) {
                        ++seen;
                        if (logAt[m] < t0 + after[k] * limit * MS - MS) {
                            chk::fail("timeout-early", "'%s' %g ms after the request, the limit is %d ms", log[m].c_str(),
                                      static_cast<double>(logAt[m] - t0) / 1e6, static_cast<int>(limit));
                        }
                    }
                }
                // the timers of the stages follow each other
                const int64_t due = after[k] * (limit + 2) * MS + 20 * MS;
                // a limit set while executing counts from the request after the next
                const bool counts = how != 2 || s - 1 > setAt;
                if ((counts && waited > due && seen != 1) || seen > 1 || (waited < after[k] * limit * MS - MS && seen != 0)) {
                    chk::fail("timeout-report", "waited %g ms with a limit of %d ms and '%s' was reported %d times", static_cast<double>(waited) / 1e6,
                              static_cast<int>(limit), stages[k], seen);
                }
                if (seen != 0) {
                    chk::count(k == 0 ? "reach.grant_timeout" : k == 1 ? "reach.grant_timeout_stage2" : k == 2 ? "reach.grant_timeout_stage3" : "reach.grant_timeout_stage4");
                    chk::nontrivial();
                }
            }
        }
        fed.finalize();
    });
    d.finish();
}

/** a co-simulation that takes longer than its maximum duration is ended, a shorter one is not touched */
void maxDuration()
{
    const int n = 1 + static_cast<int>(pick(4));
    auto d = fx::pickDeployment(n, fx::ANY, 3);
    const int64_t limit = 1000 * static_cast<int64_t>(8 + pick(40));  // ms
    const int64_t length = flip(1, 2) ? limit * 2 : limit / 4;
    const bool onBrokers = flip(1, 3);
    (onBrokers ? d.brokerArgs : d.rootArgs) += " --maxcosimduration=" + std::to_string(limit) + "ms";
    const int64_t step = length / 8;
    chk::describe("%s, limit %d ms, %d ms long", d.str().c_str(), static_cast<int>(limit), static_cast<int>(length));
    if (d.network()) {
        fx::pickNetwork();
    }
    const auto t0 = static_cast<int64_t>(sim::nowNs());
    d.start();
    int ended = 0;
    fx::runFederates(d, [&](int i) {
        auto fi = d.info(i);
        fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, 1.0);
        fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE);
        CombinationFederate fed(d.fedName(i), fi);
        auto& pub = fed.registerGlobalPublication<int64_t>("p" + std::to_string(i));
        auto& in = fed.registerInput<int64_t>("in");
        for (int j = 0; j < n; ++j) {
            if (j != i) {
                in.addTarget("p" + std::to_string(j));
            }
        }
        int reached = 0;
        std::string text;
        try {
            fed.enterExecutingMode();
            for (int s = 1; s <= 8; ++s) {
                pub.publish(static_cast<int64_t>(s));
                sim::sleepNs(static_cast<uint64_t>(step * MS));
                if (fed.requestTime(static_cast<double>(s)) != Time(static_cast<double>(s))) {
                    break;
                }
                reached = s;
            }
        }
        catch (const HelicsException& e) {
            text = e.what();
        }
        const auto now = (static_cast<int64_t>(sim::nowNs()) - t0) / MS;
        if (reached == 8 && length > limit + 30000) {
            chk::fail("not-ended", "f%d took %d ms, the limit is %d ms", i, static_cast<int>(now), static_cast<int>(limit));
        }
        if (reached < 8) {
            if (now < limit) {
                chk::fail("ended-early", "f%d was stopped at step %d after %d ms, the limit is %d ms: %s", i, reached, static_cast<int>(now),
                          static_cast<int>(limit), text.c_str());
            }
            ++ended;
            // ticks of 5 s, the step that is going on
            if (now > limit + 12000 + step) {
                chk::fail("ended-late", "f%d was stopped after %d ms, the limit is %d ms: %s", i, static_cast<int>(now), static_cast<int>(limit), text.c_str());
            }
        }
        fed.finalize();
    });
    d.finish();
    if (ended > 0) {
        chk::count("reach.duration_exceeded");
    }
    chk::nontrivial();
}

chk::Register rtA("C23", "realtime", 3, [] {
    RealTime r;
    r.generate();
    r.run();
});
chk::Register rtB("C23", "grant_timeout", 2, grantTimeout);
chk::Register rtC("C23", "max_duration", 1, maxDuration);
}  // namespace
