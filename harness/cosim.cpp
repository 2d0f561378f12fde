#include "cosim.hpp"

#include <algorithm>
#include <cmath>
#include <complex>
#include <cstring>

using namespace helics;

namespace cs {
static constexpr int64_t MS = 1'000'000;
static constexpr int64_t SEC = 1'000'000'000;

int64_t allowed(const FedSpec& f, int64_t t)
{
    if (f.period <= 1) {
        return t;
    }
    if (t <= f.offset) {
        return f.offset;
    }
    const int64_t k = (t - f.offset + f.period - 1) / f.period;
    return f.offset + k * f.period;
}
int64_t nextPossible(const FedSpec& f, int64_t granted)
{
    int64_t t = granted + std::max<int64_t>(f.delta, 1);
    if (granted == 0 && f.offset > t) {
        t = f.offset;
    }
    auto a = allowed(f, t);
    if (granted == 0 && a == 0) {
        a = f.period;
    }
    return a;
}

std::string Spec::str() const
{
    std::string s = dep.str();
    for (size_t i = 0; i < feds.size(); ++i) {
        auto& f = feds[i];
        char b[200];
        snprintf(b, sizeof b, "; f%zu P=%g O=%g D=%g in=%g out=%g%s%s steps=%zu", i, fx::sec(f.period), fx::sec(f.offset),
                 fx::sec(f.delta), fx::sec(f.inDelay), fx::sec(f.outDelay), f.uninterruptible ? " unint" : "",
                 f.waitCurrent ? " wait" : "", f.steps.size());
        s += b;
    }
    s += "; pubs=" + std::to_string(pubs.size()) + " inputs=" + std::to_string(ins.size()) +
        " endpoints=" + std::to_string(eps.size());
    return s;
}

Spec generate(const Options& opt)
{
    Spec s;
    s.opt = opt;
    const int n = opt.minFeds + static_cast<int>(chk::pick(static_cast<uint64_t>(opt.maxFeds - opt.minFeds + 1)));
    s.dep = fx::pickDeployment(n, opt.mode, opt.maxBrokers, opt.oneCore);
    s.dep.rootArgs = opt.rootArgs;
    s.dep.brokerArgs = opt.brokerArgs;
    s.dep.coreArgs = opt.coreArgs;
    if (opt.network && s.dep.network()) {
        fx::pickNetwork();
    }
    s.feds.resize(static_cast<size_t>(n));
    static const int64_t exactP[] = {10 * MS, 20 * MS, 50 * MS, 100 * MS, 30 * MS};
    static const int64_t looseP[] = {0, SEC, SEC / 2, 2 * SEC, SEC / 4, 3 * SEC};
    int waiter = -1;
    for (int i = 0; i < n; ++i) {
        auto& f = s.feds[static_cast<size_t>(i)];
        if (opt.exact) {
            f.period = exactP[chk::pick(5)];
            f.offset = (i + 1) * MS;
            if (opt.timing && chk::flip(1, 4)) {
                f.delta = 15 * MS + static_cast<int64_t>(chk::pick(5)) * 10 * MS;
            }
            if (opt.timing && chk::flip(1, 5)) {
                f.outDelay = 10 * MS * (1 + static_cast<int64_t>(chk::pick(3)));
            }
        } else if (opt.timing) {
            f.period = looseP[chk::pick(6)];
            if (f.period != 0 && chk::flip(1, 4)) {
                f.offset = f.period / 4 * (1 + static_cast<int64_t>(chk::pick(3)));
            }
            if (chk::flip(1, 4)) {
                f.delta = SEC / 4 * (1 + static_cast<int64_t>(chk::pick(6)));
                if (f.delta == f.offset) {
                    f.delta += SEC / 8;
                }
            }
            if (opt.inDelays && chk::flip(1, 5)) {
                f.inDelay = SEC / 4 * (1 + static_cast<int64_t>(chk::pick(3)));
            }
            if (opt.outDelays && chk::flip(1, 5)) {
                f.outDelay = SEC / 4 * (1 + static_cast<int64_t>(chk::pick(3)));
            }
            if (!opt.noWait && waiter < 0 && f.inDelay == 0 && chk::flip(1, 8)) {
                f.waitCurrent = true;
                waiter = i;
            }
        } else {
            f.period = SEC;
        }
        if (opt.unint == 0 ? (opt.timing && chk::flip(1, 4)) : opt.unint > 0) {
            f.uninterruptible = true;
        }
        f.thinkInit = chk::pick(6);
        f.endMode = static_cast<int>(chk::pick(3));
    }
    static const int lengths[] = {0, 0, 0, 0, 0, 25, 45, 64, 65, 250};
    const std::string prefix(static_cast<size_t>(lengths[chk::pick(10)]), 'x');
    if (opt.values) {
        const int np = 1 + static_cast<int>(chk::pick(static_cast<uint64_t>(2 * n)));
        for (int p = 0; p < np; ++p) {
            PubSpec ps;
            ps.fed = static_cast<int>(chk::pick(static_cast<uint64_t>(n)));
            ps.type = static_cast<int>(chk::pick(7));
            static const int sizes[] = {8, 1, 62, 64, 65, 130, 900};
            ps.size = opt.bigPayload ? sizes[chk::pick(7)] : 8;
            ps.key = prefix + "p" + std::to_string(p);
            s.pubs.push_back(ps);
            const int subs = static_cast<int>(chk::pick(4));
            std::set<int> used;
            for (int k = 0; k < std::max(1, subs); ++k) {
                InSpec in;
                in.pub = p;
                in.fed = (ps.fed + 1 + static_cast<int>(chk::pick(static_cast<uint64_t>(n)))) % n;
                if (!used.insert(in.fed).second) {
                    continue;
                }
                if (in.fed == ps.fed && opt.exact) {
                    continue;  // own publications tie with the own grants
                }
                in.how = static_cast<int>(chk::pick(4));
                s.ins.push_back(in);
            }
        }
    }
    if (opt.messages) {
        const int ne = 2 + static_cast<int>(chk::pick(static_cast<uint64_t>(2 * n)));
        for (int e = 0; e < ne; ++e) {
            EpSpec es;
            es.fed = e < n ? e : static_cast<int>(chk::pick(static_cast<uint64_t>(n)));
            es.key = prefix + "e" + std::to_string(e);
            s.eps.push_back(es);
        }
    }
    for (int i = 0; i < n; ++i) {
        auto& f = s.feds[static_cast<size_t>(i)];
        int steps = 3 + static_cast<int>(chk::pick(static_cast<uint64_t>(std::max(1, opt.maxSteps - 2))));
        if (!opt.earlyEnd) {
            steps = opt.maxSteps;
        }
        std::vector<int> myPubs, myEps;
        for (size_t p = 0; p < s.pubs.size(); ++p) {
            if (s.pubs[p].fed == i) {
                myPubs.push_back(static_cast<int>(p));
            }
        }
        for (size_t e = 0; e < s.eps.size(); ++e) {
            if (s.eps[e].fed == i) {
                myEps.push_back(static_cast<int>(e));
            }
        }
        for (int k = 0; k < steps; ++k) {
            Step st;
            if (!(opt.exact && k == 0)) {
                for (int p : myPubs) {
                    const auto c = chk::pick(5);
                    const int reps = c == 4 ? 2 : (c == 3 ? 0 : 1);
                    for (int r = 0; r < reps; ++r) {
                        Op o;
                        o.kind = 0;
                        o.idx = p;
                        st.ops.push_back(o);
                    }
                }
                for (int e : myEps) {
                    const auto c = chk::pick(4);
                    const int reps = c == 3 ? 3 : (c == 2 ? 0 : 1);
                    for (int r = 0; r < reps; ++r) {
                        Op o;
                        o.kind = 1;
                        o.idx = e;
                        o.dest = static_cast<int>(chk::pick(s.eps.size()));
                        if (opt.exact && s.eps[static_cast<size_t>(o.dest)].fed == i) {
                            continue;  // to itself: would tie with the own grant
                        }
                        static const int sizes[] = {10, 1, 40, 62, 64, 65, 100, 1000, 3000};
                        o.size = opt.bigPayload ? sizes[chk::pick(9)] : 10;
                        o.how = static_cast<int>(chk::pick(4));
                        if (chk::flip(1, 4)) {
                            o.delay = opt.exact ? 10 * MS * static_cast<int64_t>(chk::pick(20)) :
                                                  SEC / 4 * static_cast<int64_t>(chk::pick(12));
                        }
                        st.ops.push_back(o);
                        if (chk::flip(1, 24)) {
                            // a burst to the same place and for the same time
                            if (o.size > 100) {
                                o.size = 100;
                            }
                            chk::count("reach.message_bursts");
                            for (uint64_t b = 10 + chk::pick(30); b > 0; --b) {
                                st.ops.push_back(o);
                            }
                        }
                    }
                }
            }
            static const int64_t looseDt[] = {SEC, SEC / 2, 2 * SEC, 5 * SEC, SEC / 4, SEC / 3, 7 * SEC / 2, 0};
            static const int64_t exactDt[] = {100 * MS, 10 * MS, 37 * MS, 250 * MS, 60 * MS, 333 * MS, 1 * MS, 500 * MS};
            st.dt = opt.exact ? exactDt[chk::pick(8)] : looseDt[chk::pick(8)];
            st.kind = opt.apiMix ? static_cast<int>(chk::pick(opt.async ? 5 : 3)) : 0;
            if (opt.async && st.kind >= 3) {
                st.kind = 3;
            }
            st.think = chk::pick(8);
            f.steps.push_back(st);
        }
    }
    if (opt.stalls) {
        s.stalls = static_cast<int>(sim::choose(sim::K_FAULT, 4));
    }
    return s;
}

// ---------------------------------------------------------------- values
static void publishValue(Publication& p, const PubSpec& ps, int pubIdx, int seq)
{
    const int64_t id = static_cast<int64_t>(pubIdx) * 100000 + seq;
    switch (ps.type) {
        case 1:
            p.publish(id);
            break;
        case 2:
            p.publish(fx::payload(std::to_string(id), static_cast<size_t>(ps.size)));
            break;
        case 3: {
            std::vector<double> v{static_cast<double>(id)};
            for (int i = 0; i < ps.size / 8; ++i) {
                v.push_back(static_cast<double>(id) + i * 0.5);
            }
            p.publish(v);
        } break;
        case 4:
            p.publish(std::complex<double>(static_cast<double>(id), -0.5 * static_cast<double>(id)));
            break;
        case 5:
            p.publish(NamedPoint(fx::payload("n" + std::to_string(id), static_cast<size_t>(ps.size)), static_cast<double>(id)));
            break;
        case 6: {
            std::vector<std::complex<double>> v{{static_cast<double>(id), 1.0}};
            for (int i = 0; i < ps.size / 16; ++i) {
                v.emplace_back(static_cast<double>(id) + i, -i);
            }
            p.publish(v);
        } break;
        default:
            p.publish(static_cast<double>(id) + 0.25);
            break;
    }
}
static const char* typeName(int t)
{
    static const char* n[] = {"double", "int64", "string", "vector", "complex", "named_point", "complex_vector"};
    return n[t];
}
/** the sequence number of the value, -2 when the value was never published in this form */
static int decodeValue(Input& in, const PubSpec& ps, int pubIdx, std::string& bad)
{
    auto check = [&](double d) -> int64_t {
        const auto id = static_cast<int64_t>(d);
        if (static_cast<double>(id) != d || id / 100000 != pubIdx) {
            bad = "value " + std::to_string(d);
            return -2;
        }
        return id;
    };
    int64_t id = -2;
    switch (ps.type) {
        case 1: {
            auto v = in.getValue<int64_t>();
            if (v / 100000 == pubIdx) {
                id = v;
            } else {
                bad = "value " + std::to_string(v);
            }
        } break;
        case 2: {
            auto v = in.getValue<std::string>();
            id = atoll(v.c_str());
            if (id / 100000 != pubIdx || v != fx::payload(std::to_string(id), static_cast<size_t>(ps.size))) {
                bad = "string '" + v.substr(0, 60) + "' length " + std::to_string(v.size());
                id = -2;
            }
        } break;
        case 3: {
            auto v = in.getValue<std::vector<double>>();
            if (v.size() != 1 + static_cast<size_t>(ps.size / 8)) {
                bad = "vector of size " + std::to_string(v.size());
                break;
            }
            id = check(v[0]);
            for (size_t i = 1; id >= 0 && i < v.size(); ++i) {
                if (v[i] != v[0] + static_cast<double>(i - 1) * 0.5) {
                    bad = "vector element";
                    id = -2;
                }
            }
        } break;
        case 4: {
            auto v = in.getValue<std::complex<double>>();
            id = check(v.real());
            if (id >= 0 && v.imag() != -0.5 * v.real()) {
                bad = "imaginary part";
                id = -2;
            }
        } break;
        case 5: {
            auto v = in.getValue<NamedPoint>();
            id = check(v.value);
            if (id >= 0 && v.name != fx::payload("n" + std::to_string(id), static_cast<size_t>(ps.size))) {
                bad = "name";
                id = -2;
            }
        } break;
        case 6: {
            auto v = in.getValue<std::vector<std::complex<double>>>();
            if (v.size() != 1 + static_cast<size_t>(ps.size / 16)) {
                bad = "complex vector of size " + std::to_string(v.size());
                break;
            }
            id = check(v[0].real());
            for (size_t i = 1; id >= 0 && i < v.size(); ++i) {
                const double k = static_cast<double>(i - 1);
                if (v[i] != std::complex<double>(v[0].real() + k, -k)) {
                    bad = "complex vector element";
                    id = -2;
                }
            }
        } break;
        default: {
            auto v = in.getValue<double>();
            id = check(v - 0.25);
        } break;
    }
    return id < 0 ? -2 : static_cast<int>(id % 100000);
}

#define ALARM(bit, cls, ...)                                                                       \
    do {                                                                                           \
        if ((s.opt.oracles & (bit)) != 0) {                                                        \
            chk::fail(cls, __VA_ARGS__);                                                           \
        }                                                                                          \
    } while (0)

History execute(Spec& s)
{
    History h;
    const auto n = s.feds.size();
    h.grants.resize(n);
    h.pubs.resize(s.pubs.size());
    h.finished.assign(n, false);
    auto& d = s.dep;
    chk::describe("%s", s.str().c_str());
    chk::phase("start");
    d.start();
    if (s.stalls > 0) {
        // slow processes: the stall begins at a random moment of the run
        for (int k = 0; k < s.stalls; ++k) {
            const auto what = sim::choose(sim::K_FAULT, d.coreFeds.size() + static_cast<size_t>(d.brokerCount));
            const int node = what < d.coreFeds.size() ? Deployment::coreNode(static_cast<int>(what)) :
                                                         Deployment::brokerNode(static_cast<int>(what - d.coreFeds.size()));
            const uint64_t when = sim::nowNs() + sim::choose(sim::K_FAULT, 60) * 2'000'000ull;
            const uint64_t len = (1 + sim::choose(sim::K_FAULT, 8)) * 150'000'000ull;
            sim::at(when, [node, len] {
                sim::stallNode(node, len);
                chk::count("fault.process_stall");
            });
        }
    }
    fx::runFederates(d, [&](int fi) {
        const auto fidx = static_cast<size_t>(fi);
        auto& spec = s.feds[fidx];
        fx::think(spec.thinkInit);
        auto info = d.info(fi);
        if (spec.period != 0) {
            info.setProperty(HELICS_PROPERTY_TIME_PERIOD, fx::fromNs(spec.period));
        }
        if (spec.offset != 0) {
            info.setProperty(HELICS_PROPERTY_TIME_OFFSET, fx::fromNs(spec.offset));
        }
        if (spec.delta > 1) {
            info.setProperty(HELICS_PROPERTY_TIME_DELTA, fx::fromNs(spec.delta));
        }
        if (spec.inDelay != 0) {
            info.setProperty(HELICS_PROPERTY_TIME_INPUT_DELAY, fx::fromNs(spec.inDelay));
        }
        if (spec.outDelay != 0) {
            info.setProperty(HELICS_PROPERTY_TIME_OUTPUT_DELAY, fx::fromNs(spec.outDelay));
        }
        if (spec.uninterruptible) {
            info.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE, true);
        }
        if (spec.waitCurrent) {
            info.setFlagOption(HELICS_FLAG_WAIT_FOR_CURRENT_TIME_UPDATE, true);
        }
        CombinationFederate fed(d.fedName(fi), info);
        std::map<int, Publication*> pubs;
        std::map<int, Input*> ins;
        std::map<int, Endpoint*> eps;
        for (size_t p = 0; p < s.pubs.size(); ++p) {
            if (s.pubs[p].fed == fi) {
                pubs[static_cast<int>(p)] = &fed.registerGlobalPublication(s.pubs[p].key, typeName(s.pubs[p].type));
            }
        }
        for (size_t k = 0; k < s.ins.size(); ++k) {
            auto& in = s.ins[k];
            if (in.how == 3) {
                // the publisher pushes to a named input
                if (in.fed == fi) {
                    ins[static_cast<int>(k)] = &fed.registerGlobalInput("i" + std::to_string(k), "");
                }
                if (s.pubs[static_cast<size_t>(in.pub)].fed == fi) {
                    pubs[in.pub]->addDestinationTarget("i" + std::to_string(k));
                }
                continue;
            }
            if (in.fed != fi) {
                continue;
            }
            const auto& key = s.pubs[static_cast<size_t>(in.pub)].key;
            if (in.how == 0) {
                ins[static_cast<int>(k)] = &fed.registerSubscription(key);
            } else if (in.how == 1) {
                auto& ipt = fed.registerInput("i" + std::to_string(k), typeName(s.pubs[static_cast<size_t>(in.pub)].type));
                ipt.addTarget(key);
                ins[static_cast<int>(k)] = &ipt;
            } else {
                auto& ipt = fed.registerGlobalInput("i" + std::to_string(k), "");
                fed.addAlias("i" + std::to_string(k), "ialias" + std::to_string(k));
                fed.getCorePointer()->dataLink(key, "i" + std::to_string(k));
                ins[static_cast<int>(k)] = &ipt;
            }
        }
        for (size_t e = 0; e < s.eps.size(); ++e) {
            if (s.eps[e].fed == fi) {
                eps[static_cast<int>(e)] = &fed.registerGlobalEndpoint(s.eps[e].key);
            }
        }
        if (spec.endMode == 1 && s.opt.async) {
            fed.enterInitializingModeAsync();
            fx::think(spec.thinkInit);
            fed.enterInitializingModeComplete();
        } else if (spec.endMode == 2) {
            fed.enterInitializingMode();
        }
        fx::think(spec.thinkInit + 1);
        if (spec.endMode == 1 && s.opt.async) {
            fed.enterExecutingModeAsync();
            fx::think(spec.thinkInit + 2);
            fed.enterExecutingModeComplete();
        } else {
            fed.enterExecutingMode();
        }
        std::map<int, int> lastSeen;
        int64_t now = fx::ns(fed.getCurrentTime());
        if (now != 0) {
            ALARM(O_TIME | O_EXACT, "time-start", "federate %d enters executing mode at %lld ns", fi, (long long)now);
        }
        for (size_t k = 0; k < spec.steps.size(); ++k) {
            auto& st = spec.steps[k];
            fx::think(st.think);
            for (auto& o : st.ops) {
                if (o.kind == 0) {
                    auto& hist = h.pubs[static_cast<size_t>(o.idx)];
                    const auto seq = static_cast<int>(hist.size());
                    hist.push_back({now + spec.outDelay, sim::eventSeq(), now});
                    chk::trace("f%d publish %s #%d ts %.9f", fi, s.pubs[static_cast<size_t>(o.idx)].key.c_str(), seq, fx::sec(now + spec.outDelay));
                    publishValue(*pubs[o.idx], s.pubs[static_cast<size_t>(o.idx)], o.idx, seq);
                } else {
                    const int id = static_cast<int>(h.msgs.size());
                    MsgEv m;
                    m.from = o.idx;
                    m.to = o.dest;
                    m.fed = fi;
                    m.ts = now + spec.outDelay;
                    if (o.delay >= 0) {
                        m.ts = std::max(m.ts, now + o.delay);
                    }
                    m.seq = sim::eventSeq();
                    m.data = fx::payload("m" + std::to_string(id), static_cast<size_t>(o.size));
                    h.msgs.push_back(m);
                    const auto& dest = s.eps[static_cast<size_t>(o.dest)].key;
                    auto& ep = *eps[o.idx];
                    chk::trace("f%d send m%d %s->%s ts %.9f", fi, id, s.eps[static_cast<size_t>(o.idx)].key.c_str(), dest.c_str(), fx::sec(m.ts));
                    if (o.delay >= 0) {
                        ep.sendToAt(m.data, dest, fx::fromNs(now + o.delay));
                    } else if (o.how == 1) {
                        Message msg;
                        msg.data = m.data;
                        msg.dest = dest;
                        msg.original_source = s.eps[static_cast<size_t>(o.idx)].key;
                        msg.time = fx::fromNs(now);
                        ep.send(msg);
                    } else if (o.how == 2) {
                        ep.sendTo(m.data.data(), m.data.size(), dest);
                    } else {
                        ep.sendTo(m.data, dest);
                    }
                }
            }
            Grant g;
            g.next = nextPossible(spec, now);
            int64_t target = now + st.dt;
            Time got;
            chk::trace("f%d request %.9f kind %d", fi, fx::sec(target), st.kind);
            switch (st.kind) {
                case 1:
                    got = fed.requestTimeAdvance(fx::fromNs(st.dt));
                    break;
                case 2:
                    if (spec.period > 0) {
                        target = g.next;
                        got = fed.requestNextStep();
                    } else {
                        got = fed.requestTime(fx::fromNs(target));
                    }
                    break;
                case 3:
                    fed.requestTimeAsync(fx::fromNs(target));
                    for (int w = 0; w < 3 && !fed.isAsyncOperationCompleted(); ++w) {
                        fx::think(st.think + 2);
                    }
                    got = fed.requestTimeComplete();
                    break;
                default:
                    got = fed.requestTime(fx::fromNs(target));
                    break;
            }
            g.request = target;
            g.granted = fx::ns(got);
            chk::trace("f%d granted %.9f", fi, fx::sec(g.granted));
            if (fx::ns(fed.getCurrentTime()) != g.granted) {
                ALARM(O_TIME | O_EXACT, "time-current", "federate %d: granted %lld but getCurrentTime is %lld", fi, (long long)g.granted,
                      (long long)fx::ns(fed.getCurrentTime()));
            }
            // monotonic, on the grid, not past the request: checked as the run proceeds
            if (g.granted <= now) {
                ALARM(O_TIME | O_EXACT, "time-not-advancing", "federate %d: at %lld ns requested %lld and was granted %lld", fi, (long long)now,
                      (long long)target, (long long)g.granted);
            }
            if (allowed(spec, g.granted) != g.granted) {
                ALARM(O_TIME | O_EXACT, "time-off-grid", "federate %d: granted %lld ns with period %lld offset %lld", fi, (long long)g.granted,
                      (long long)spec.period, (long long)spec.offset);
            }
            if (g.granted < g.next) {
                ALARM(O_TIME | O_EXACT, "time-delta", "federate %d: at %lld granted %lld, the earliest allowed is %lld", fi, (long long)now,
                      (long long)g.granted, (long long)g.next);
            }
            const int64_t latest = allowed(spec, std::max(target, g.next));
            if (g.granted > latest) {
                ALARM(O_TIME | O_EXACT, "time-past-request", "federate %d: at %lld requested %lld (allowed %lld) and was granted %lld", fi,
                      (long long)now, (long long)target, (long long)latest, (long long)g.granted);
            }
            if (spec.uninterruptible && g.granted != latest) {
                ALARM(O_TIME | O_EXACT, "time-uninterruptible", "uninterruptible federate %d: at %lld requested %lld, granted %lld", fi,
                      (long long)now, (long long)target, (long long)g.granted);
            }
            for (auto& ip : ins) {
                auto& in = *ip.second;
                const int pidx = s.ins[static_cast<size_t>(ip.first)].pub;
                const bool upd = in.isUpdated();
                int last = lastSeen.count(ip.first) != 0 ? lastSeen[ip.first] : -1;
                if (upd || last >= 0) {
                    std::string bad;
                    const int v = decodeValue(in, s.pubs[static_cast<size_t>(pidx)], pidx, bad);
                    if (v < 0 || v >= static_cast<int>(h.pubs[static_cast<size_t>(pidx)].size())) {
                        ALARM(O_VALUE | O_EXACT, "value-corrupt", "federate %d at %lld: input %d of publication %s holds a value never published: %s",
                              fi, (long long)g.granted, ip.first, s.pubs[static_cast<size_t>(pidx)].key.c_str(), bad.c_str());
                    } else {
                        if (v < last) {
                            ALARM(O_VALUE | O_EXACT, "value-backwards", "federate %d at %lld: input %d went back from #%d to #%d", fi,
                                  (long long)g.granted, ip.first, last, v);
                        }
                        if (!upd && v != last) {
                            ALARM(O_VALUE | O_EXACT, "value-update-flag", "federate %d at %lld: input %d changed from #%d to #%d without isUpdated",
                                  fi, (long long)g.granted, ip.first, last, v);
                        }
                        if (upd && v == last) {
                            ALARM(O_VALUE | O_EXACT, "value-update-flag", "federate %d at %lld: input %d isUpdated but still holds #%d", fi,
                                  (long long)g.granted, ip.first, v);
                        }
                        const auto ts = h.pubs[static_cast<size_t>(pidx)][static_cast<size_t>(v)].ts;
                        if (ts > g.granted) {
                            ALARM(O_CAUSAL | O_VALUE | O_EXACT, "value-from-future", "federate %d at %lld sees publication %s #%d of time %lld", fi,
                                  (long long)g.granted, s.pubs[static_cast<size_t>(pidx)].key.c_str(), v, (long long)ts);
                        }
                        // a value of time 0 may have been taken in on entering the executing mode already
                        const bool atEntry = last < 0 && ts == 0 && fx::ns(in.getLastUpdate()) == 0;
                        if (upd && fx::ns(in.getLastUpdate()) != g.granted && !atEntry) {
                            ALARM(O_VALUE | O_EXACT, "value-update-time", "federate %d at %lld: getLastUpdate is %lld", fi, (long long)g.granted,
                                  (long long)fx::ns(in.getLastUpdate()));
                        }
                        lastSeen[ip.first] = v;
                    }
                }
                g.seen[ip.first] = lastSeen.count(ip.first) != 0 ? lastSeen[ip.first] : -1;
                if (upd) {
                    chk::count("reach.value_update_seen");
                }
            }
            for (auto& ep : eps) {
                int64_t lastT = -1;
                while (ep.second->hasMessage()) {
                    auto m = ep.second->getMessage();
                    if (!m) {
                        ALARM(O_MSG | O_EXACT, "message-null", "federate %d at %lld: hasMessage but getMessage gives nothing", fi, (long long)g.granted);
                        break;
                    }
                    const std::string body(m->to_string());
                    const int id = body.size() > 1 && body[0] == 'm' ? atoi(body.c_str() + 1) : -1;
                    if (id < 0 || id >= static_cast<int>(h.msgs.size()) || h.msgs[static_cast<size_t>(id)].data != body) {
                        ALARM(O_MSG | O_EXACT, "message-corrupt", "federate %d at %lld: message '%.60s' size %zu was never sent", fi,
                              (long long)g.granted, body.c_str(), body.size());
                        continue;
                    }
                    auto& ev = h.msgs[static_cast<size_t>(id)];
                    if (ev.to != ep.first) {
                        ALARM(O_MSG | O_EXACT, "message-misrouted", "message m%d for endpoint %d arrived at %d", id, ev.to, ep.first);
                    }
                    if (++ev.received > 1) {
                        ALARM(O_MSG | O_EXACT, "message-duplicate", "message m%d received %d times", id, ev.received);
                    }
                    if (m->source != s.eps[static_cast<size_t>(ev.from)].key || m->dest != s.eps[static_cast<size_t>(ev.to)].key) {
                        ALARM(O_MSG | O_EXACT, "message-address", "message m%d: source %s dest %s, sent from %s to %s", id, m->source.c_str(),
                              m->dest.c_str(), s.eps[static_cast<size_t>(ev.from)].key.c_str(), s.eps[static_cast<size_t>(ev.to)].key.c_str());
                    }
                    const auto mt = fx::ns(m->time);
                    if (mt != ev.ts) {
                        ALARM(O_MSG | O_EXACT, "message-time", "message m%d carries time %lld, it was sent for %lld", id, (long long)mt, (long long)ev.ts);
                    }
                    if (ev.ts > g.granted) {
                        ALARM(O_CAUSAL | O_MSG | O_EXACT, "message-from-future", "federate %d at %lld receives message m%d of time %lld", fi,
                              (long long)g.granted, id, (long long)ev.ts);
                    }
                    if (mt < lastT) {
                        ALARM(O_MSG | O_EXACT, "message-order", "federate %d at %lld: message m%d of time %lld after one of time %lld", fi,
                              (long long)g.granted, id, (long long)mt, (long long)lastT);
                    }
                    lastT = mt;
                    ev.recvAt = g.granted;
                    g.got.push_back(id);
                    chk::count("reach.message_received");
                }
            }
            now = g.granted;
            h.grants[fidx].push_back(std::move(g));
        }
        fx::think(spec.thinkInit + 3);
        if (spec.endMode == 1) {
            fed.finalizeAsync();
            fx::think(spec.thinkInit);
            fed.finalizeComplete();
        } else {
            fed.finalize();
        }
        h.finished[fidx] = true;
        chk::trace("f%d finalized", fi);
    });
    d.finish();
    return h;
}

// ---------------------------------------------------------------- after the run
namespace {
    struct Event {
        int64_t ts;
        int kind;  // 0 value, 1 message
        int idx;  // input / message id
        int pubSeq;
        uint64_t seq;
    };
}  // namespace

/** sequential reference model for disjoint time grids: grants, values and messages are determined */
static void judgeExact(const Spec& s, const History& h)
{
    const auto n = s.feds.size();
    struct Ref {
        int64_t now{0};
        size_t step{0};
        bool done{false};
        std::vector<Event> pending;
        std::map<int, int> seen;
    };
    std::vector<Ref> r(n);
    std::vector<int> pubSeq(s.pubs.size(), 0);
    // message identity in the model: (federate, ordinal of the send of that federate)
    std::vector<std::vector<int>> sendIds(n);
    for (size_t m = 0; m < h.msgs.size(); ++m) {
        sendIds[static_cast<size_t>(h.msgs[m].fed)].push_back(static_cast<int>(m));
    }
    std::vector<size_t> sendOrd(n, 0);
    auto ops = [&](size_t i) {
        auto& f = s.feds[i];
        for (auto& o : f.steps[r[i].step].ops) {
            if (o.kind == 0) {
                const int sq = pubSeq[static_cast<size_t>(o.idx)]++;
                for (size_t k = 0; k < s.ins.size(); ++k) {
                    if (s.ins[k].pub == o.idx) {
                        auto& t = r[static_cast<size_t>(s.ins[k].fed)];
                        if (!t.done) {
                            t.pending.push_back({r[i].now + f.outDelay, 0, static_cast<int>(k), sq, 0});
                        }
                    }
                }
            } else {
                const auto ord = sendOrd[i]++;
                const int id = ord < sendIds[i].size() ? sendIds[i][ord] : -1;
                int64_t ts = r[i].now + f.outDelay;
                if (o.delay >= 0) {
                    ts = std::max(ts, r[i].now + o.delay);
                }
                auto& t = r[static_cast<size_t>(s.eps[static_cast<size_t>(o.dest)].fed)];
                if (!t.done) {
                    t.pending.push_back({ts, 1, id, 0, 0});
                }
            }
        }
    };
    for (size_t i = 0; i < n; ++i) {
        ops(i);
    }
    auto target = [&](size_t i) {
        auto& f = s.feds[i];
        const auto& st = f.steps[r[i].step];
        const int64_t np = nextPossible(f, r[i].now);
        return (st.kind == 2 && f.period > 0) ? np : allowed(f, std::max(r[i].now + st.dt, np));
    };
    for (;;) {
        size_t best = n;
        int64_t bt = INT64_MAX;
        for (size_t i = 0; i < n; ++i) {
            if (r[i].done) {
                continue;
            }
            auto& f = s.feds[i];
            int64_t t = target(i);
            if (!f.uninterruptible) {
                const int64_t np = nextPossible(f, r[i].now);
                for (auto& e : r[i].pending) {
                    t = std::min(t, allowed(f, std::max(e.ts, np)));
                }
            }
            if (t < bt) {
                bt = t;
                best = i;
            }
        }
        if (best == n) {
            break;
        }
        auto& R = r[best];
        const size_t gi = R.step;
        if (gi >= h.grants[best].size()) {
            chk::fail("exact-missing-grant", "federate %zu has no grant %zu", best, gi);
        }
        const auto& g = h.grants[best][gi];
        if (g.granted != bt) {
            chk::fail("exact-grant", "federate %zu grant %zu: at %lld requested %lld, granted %lld, the reference model says %lld", best,
                      gi, (long long)R.now, (long long)g.request, (long long)g.granted, (long long)bt);
        }
        std::vector<Event> left;
        std::multiset<int> msgs;
        for (auto& e : R.pending) {
            if (e.ts <= bt) {
                if (e.kind == 0) {
                    auto it = R.seen.find(e.idx);
                    R.seen[e.idx] = it == R.seen.end() ? e.pubSeq : std::max(it->second, e.pubSeq);
                } else {
                    msgs.insert(e.idx);
                }
            } else {
                left.push_back(e);
            }
        }
        R.pending = left;
        for (auto& x : g.seen) {
            const int want = R.seen.count(x.first) != 0 ? R.seen[x.first] : -1;
            if (want != x.second) {
                chk::fail("exact-value", "federate %zu at %lld: input %d shows #%d of publication %s, the reference model says #%d", best,
                          (long long)bt, x.first, x.second, s.pubs[static_cast<size_t>(s.ins[static_cast<size_t>(x.first)].pub)].key.c_str(), want);
            }
        }
        if (std::multiset<int>(g.got.begin(), g.got.end()) != msgs) {
            std::string a, b;
            for (int m : g.got) {
                a += " m" + std::to_string(m);
            }
            for (int m : msgs) {
                b += " m" + std::to_string(m);
            }
            chk::fail("exact-messages", "federate %zu at %lld received {%s}, the reference model says {%s}", best, (long long)bt, a.c_str(),
                      b.c_str());
        }
        R.now = bt;
        ++R.step;
        if (R.step >= s.feds[best].steps.size()) {
            R.done = true;
        } else {
            ops(best);
        }
    }
}

void judge(const Spec& s, const History& h)
{
    const auto n = s.feds.size();
    size_t total = 0;
    for (size_t i = 0; i < n; ++i) {
        if (!h.finished[i]) {
            chk::fail("not-finished", "federate %zu did not finish", i);
        }
        total += h.grants[i].size();
        auto& f = s.feds[i];
        // events that concern this federate
        std::vector<Event> ev;
        for (size_t k = 0; k < s.ins.size(); ++k) {
            if (s.ins[k].fed == static_cast<int>(i)) {
                auto& ph = h.pubs[static_cast<size_t>(s.ins[k].pub)];
                for (size_t q = 0; q < ph.size(); ++q) {
                    ev.push_back({ph[q].ts, 0, static_cast<int>(k), static_cast<int>(q), ph[q].seq});
                }
            }
        }
        for (size_t m = 0; m < h.msgs.size(); ++m) {
            if (s.eps[static_cast<size_t>(h.msgs[m].to)].fed == static_cast<int>(i)) {
                ev.push_back({h.msgs[m].ts, 1, static_cast<int>(m), 0, h.msgs[m].seq});
            }
        }
        std::set<int> got;
        int64_t prev = 0;
        for (auto& g : h.grants[i]) {
            const int64_t np = g.next;
            const int64_t latest = allowed(f, std::max(g.request, np));
            // all data that must be visible now
            for (auto& e : ev) {
                const int64_t vis = e.ts + f.inDelay;
                const bool must = vis < g.granted || (f.waitCurrent && vis == g.granted && f.inDelay == 0 && e.ts != g.granted);
                if (e.kind == 0 && must) {
                    const int seen = g.seen.count(e.idx) != 0 ? g.seen.at(e.idx) : -1;
                    if (seen < e.pubSeq) {
                        ALARM(O_CAUSAL | O_VALUE, "value-missing", "federate %zu granted %lld: input %d (link %d) shows #%d, publication %s #%d had time %lld", i,
                              (long long)g.granted, e.idx, s.ins[static_cast<size_t>(e.idx)].how, seen, s.pubs[static_cast<size_t>(s.ins[static_cast<size_t>(e.idx)].pub)].key.c_str(),
                              e.pubSeq, (long long)e.ts);
                    }
                }
            }
            for (int m : g.got) {
                got.insert(m);
            }
            for (auto& e : ev) {
                if (e.kind == 1 && e.ts + f.inDelay < g.granted && got.count(e.idx) == 0) {
                    ALARM(O_CAUSAL | O_MSG, "message-missing", "federate %zu granted %lld without message m%d sent for %lld", i, (long long)g.granted,
                          e.idx, (long long)e.ts);
                }
            }
            if (!f.uninterruptible) {
                // interrupted in time by what comes strictly later than the previous grant
                int64_t due = latest;
                const Event* by = nullptr;
                bool justified = g.granted == latest;
                for (auto& e : ev) {
                    if (e.ts > prev) {
                        const auto t = allowed(f, std::max(e.ts, np) + f.inDelay);
                        if (t < due) {
                            due = t;
                            by = &e;
                        }
                    }
                    if (e.ts >= prev - f.inDelay && e.ts <= g.granted) {
                        justified = true;
                    }
                }
                if (g.granted > due) {
                    ALARM(O_TIME, "time-not-interrupted", "federate %zu at %lld requested %lld, granted %lld although %s %d arrives for %lld", i,
                          (long long)prev, (long long)g.request, (long long)g.granted, by->kind == 0 ? "input" : "message", by->idx, (long long)by->ts);
                }
                if (!justified) {
                    ALARM(O_TIME, "time-early", "federate %zu at %lld requested %lld (allowed %lld) and was granted %lld without any data", i,
                          (long long)prev, (long long)g.request, (long long)latest, (long long)g.granted);
                }
                if (g.granted < latest) {
                    chk::count("reach.interrupted_grant");
                }
            }
            prev = g.granted;
        }
    }
    // same source, same destination, same time: in the order sent
    std::map<std::pair<int, int>, std::pair<int64_t, int>> lastBy;
    if ((s.opt.oracles & (O_MSG | O_EXACT)) != 0) {
        for (size_t i = 0; i < n; ++i) {
            lastBy.clear();
            for (auto& g : h.grants[i]) {
                for (int m : g.got) {
                    auto& e = h.msgs[static_cast<size_t>(m)];
                    auto key = std::make_pair(e.from, e.to);
                    auto it = lastBy.find(key);
                    if (it != lastBy.end() && it->second.first == e.ts && it->second.second > m) {
                        ALARM(O_MSG | O_EXACT, "message-fifo", "messages m%d and m%d from endpoint %d to %d with time %lld arrive in the wrong order", m,
                              it->second.second, e.from, e.to, (long long)e.ts);
                    }
                    lastBy[key] = {e.ts, m};
                }
            }
        }
    }
    if (s.opt.exact && (s.opt.oracles & O_EXACT) != 0) {
        judgeExact(s, h);
    }
    if (total >= n * 2 && (!s.ins.empty() || !s.eps.empty())) {
        chk::nontrivial();
    }
    chk::count("reach.grants", total);
}

void runAll(const Options& opt)
{
    Spec s = generate(opt);
    const History h = execute(s);
    judge(s, h);
}

}  // namespace cs
