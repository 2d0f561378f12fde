// The documented options of inputs and publications, against a reference model (C04)
#include "fed.hpp"

#include "helics/application_api/ValueConverter.hpp"

#include <cmath>
#include <map>
#include <set>

namespace {
using namespace helics;
using chk::flip;
using chk::pick;

constexpr int64_t MS = 1'000'000;
constexpr int64_t BEFORE = -1'000'000'000;

/** publishers request exact times on grids of their own; readers are interrupted by nobody, or there
 * is exactly one federate that is; so the history of published values is known up front and the model
 * determines everything a reader sees */
struct Options {
    enum Type { DOUBLE, STRING, INT };
    struct Write {
        int pub;
        int value;
        bool closes;
    };
    struct PubStep {
        int64_t at;
        std::vector<Write> writes;
        uint64_t think;
    };
    struct Pub {
        int fed;
        bool onChange{false}, fedOnChange{false};
        int64_t gap{0};  // ms
        double minChange{-1};
        bool global{true};
        std::string name;
    };
    struct Ev {
        int64_t ts;
        int value;
    };
    struct In {
        int reader;
        std::vector<int> pubs;
        bool onChange{false}, fedOnChange{false}, ignore{false}, named{true};
        int64_t gap{0};
        double minChange{-1};
        int op{0};
        std::vector<int> priority;
        std::string name;
    };
    struct Fed {
        bool reader{false};
        bool interruptible{false};
        bool onChange{false};
        std::vector<PubStep> steps;  // of a publisher; the first one at 0 is before the execution
        std::vector<int64_t> requests;
        std::vector<uint64_t> thinks;
    };
    fx::Deployment d;
    Type type{DOUBLE};
    bool interrupts{false};
    int publishers{1}, readers{1};
    std::vector<Fed> feds;
    std::vector<Pub> pubs;
    std::vector<In> ins;
    std::vector<std::vector<Ev>> sent;  // per publication, what leaves the publisher

    void generate()
    {
        type = static_cast<Type>(pick(3));
        interrupts = flip(1, 2);
        publishers = 1 + static_cast<int>(pick(3));
        readers = interrupts ? 1 : 1 + static_cast<int>(pick(2));
        const int n = publishers + readers;
        d = fx::pickDeployment(n);
        feds.resize(static_cast<size_t>(n));
        const int64_t unit = publishers + 1;  // residue 0 belongs to the readers
        const int values = 2 + static_cast<int>(pick(4));
        for (int f = 0; f < n; ++f) {
            auto& F = feds[static_cast<size_t>(f)];
            F.reader = f >= publishers;
            F.interruptible = F.reader && interrupts;
            F.onChange = flip(1, 8);
            if (F.reader) {
                int64_t t = 0;
                for (auto c = 2 + pick(10); c > 0; --c) {
                    t += unit * static_cast<int64_t>(1 + pick(6));
                    F.requests.push_back(t);
                    F.thinks.push_back(pick(6));
                }
                continue;
            }
            std::vector<int> mine;
            for (auto c = 1 + pick(2); c > 0; --c) {
                mine.push_back(static_cast<int>(pubs.size()));
                Pub p;
                p.fed = f;
                p.name = "p" + std::to_string(pubs.size());
                p.global = flip(1, 2);
                p.fedOnChange = F.onChange;
                if (flip(1, 3)) {
                    p.onChange = true;
                }
                if (flip(1, 4)) {
                    p.gap = static_cast<int64_t>(1 + pick(12));
                }
                if (type != STRING && flip(1, 4)) {
                    p.minChange = static_cast<double>(pick(3)) + 0.5;
                }
                pubs.push_back(p);
            }
            std::set<int> closed;
            // without interrupts all publishers share the times, so that values tie
            int64_t t = interrupts ? f + 1 : 1 + static_cast<int64_t>(pick(static_cast<uint64_t>(unit - 1)));
            if (flip(1, 2)) {
                PubStep s{0, {}, 0};
                for (auto c = 1 + pick(2); c > 0; --c) {
                    s.writes.push_back({mine[pick(mine.size())], static_cast<int>(pick(static_cast<uint64_t>(values))), false});
                }
                F.steps.push_back(s);
            }
            for (auto c = 1 + pick(8); c > 0; --c) {
                PubStep s{t, {}, pick(6)};
                for (auto w = pick(4); w > 0; --w) {
                    const int p = mine[pick(mine.size())];
                    if (closed.count(p) == 0) {
                        s.writes.push_back({p, static_cast<int>(pick(static_cast<uint64_t>(values))), flip(1, 12)});
                        if (s.writes.back().closes) {
                            closed.insert(p);
                        }
                    }
                }
                F.steps.push_back(s);
                t += unit * static_cast<int64_t>(1 + pick(5));
                if (!interrupts) {
                    t -= t % unit;
                    t += 1 + static_cast<int64_t>(pick(static_cast<uint64_t>(unit - 1)));
                }
            }
        }
        for (int r = publishers; r < n; ++r) {
            for (auto c = 1 + pick(3); c > 0; --c) {
                In in;
                in.reader = r;
                in.name = "i" + std::to_string(ins.size());
                in.named = flip(2, 3);
                in.fedOnChange = feds[static_cast<size_t>(r)].onChange;
                std::set<int> have;
                for (auto k = 1 + (flip(1, 2) ? pick(3) : 0); k > 0; --k) {
                    have.insert(static_cast<int>(pick(pubs.size())));
                }
                in.pubs.assign(have.begin(), have.end());
                for (size_t k = in.pubs.size(); k > 1; --k) {
                    std::swap(in.pubs[k - 1], in.pubs[pick(k)]);
                }
                const auto special = pick(5);
                if (special == 1) {
                    in.onChange = true;
                } else if (special == 2 && !in.fedOnChange) {
                    in.gap = static_cast<int64_t>(1 + pick(12));
                } else if (special == 3 && in.pubs.size() == 1 && type != STRING) {
                    in.minChange = static_cast<double>(pick(3)) + 0.5;
                }
                in.ignore = flip(1, 4);
                if (in.pubs.size() > 1) {
                    if (type == DOUBLE && in.minChange < 0 && flip(1, 2)) {
                        in.op = 1 + static_cast<int>(pick(8));
                    } else {
                        for (auto k = pick(3); k > 0; --k) {
                            in.priority.push_back(static_cast<int>(pick(in.pubs.size())));
                        }
                    }
                }
                ins.push_back(in);
            }
        }
        // what leaves the publishers
        sent.resize(pubs.size());
        for (size_t p = 0; p < pubs.size(); ++p) {
            const auto& P = pubs[p];
            bool haveChange = false, haveSent = false;
            int lastChange = 0, lastData = 0;
            int64_t lastTime = 0;
            for (auto& s : feds[static_cast<size_t>(P.fed)].steps) {
                for (auto& w : s.writes) {
                    if (w.pub != static_cast<int>(p)) {
                        continue;
                    }
                    if (P.minChange >= 0) {
                        if (haveChange && std::abs(lastChange - w.value) <= P.minChange) {
                            continue;
                        }
                        haveChange = true;
                        lastChange = w.value;
                    }
                    if (haveSent && P.gap > 0 && (s.at > 0 ? s.at : BEFORE) - lastTime < P.gap) {
                        continue;
                    }
                    if ((P.onChange || P.fedOnChange) && haveSent && lastData == w.value) {
                        continue;
                    }
                    haveSent = true;
                    lastData = w.value;
                    // what is published before the execution comes long before everything else
                    lastTime = s.at > 0 ? s.at : BEFORE;
                    sent[p].push_back({lastTime, w.value});
                }
            }
        }
        static const char* types[] = {"double", "string", "int"};
        std::string text = d.str() + " type " + types[type] + (interrupts ? " interrupts" : "");
        for (auto& p : pubs) {
            text += "; " + p.name + " of f" + std::to_string(p.fed) + (p.onChange ? " on-change" : "") + (p.fedOnChange ? " fed-on-change" : "") +
                (p.gap > 0 ? " gap " + std::to_string(p.gap) : "") + (p.minChange >= 0 ? " min " + std::to_string(p.minChange).substr(0, 3) : "");
        }
        for (auto& i : ins) {
            text += "; " + i.name + " of f" + std::to_string(i.reader) + " <-";
            for (auto p : i.pubs) {
                text += " " + pubs[static_cast<size_t>(p)].name;
            }
            text += (i.onChange ? " on-change" : "");
            text += (i.fedOnChange ? " fed-on-change" : "");
            text += (i.ignore ? " ignore" : "");
            text += (i.gap > 0 ? " gap " + std::to_string(i.gap) : "");
            text += (i.minChange >= 0 ? " min " + std::to_string(i.minChange).substr(0, 3) : "");
            text += (i.op > 0 ? " op " + std::to_string(i.op) : "");
            for (auto p : i.priority) {
                text += " prio " + std::to_string(p);
            }
        }
        for (size_t f = 0; f < feds.size(); ++f) {
            text += "; f" + std::to_string(f) + ":";
            for (auto& s : feds[f].steps) {
                text += " " + std::to_string(s.at) + "[";
                for (auto& w : s.writes) {
                    text += " " + pubs[static_cast<size_t>(w.pub)].name + "=" + std::to_string(w.value) + (w.closes ? "!" : "");
                }
                text += " ]";
            }
            for (auto t : feds[f].requests) {
                text += " " + std::to_string(t);
            }
        }
        chk::describe("%s", text.c_str());
    }

    static std::string text(int v) { return "value " + std::string(static_cast<size_t>(v * v * 5), 'x') + std::to_string(v); }
    std::string pubName(int p) const
    {
        const auto& P = pubs[static_cast<size_t>(p)];
        return P.global ? P.name : d.fedName(P.fed) + "/" + P.name;
    }

    /** the reference model of one input */
    struct Source {
        std::vector<Ev> queue;  // accepted, not yet applied
        bool have{false};
        Ev current{0, 0};
        bool accepted{false};
        Ev lastAccepted{0, 0};
        size_t next{0};
    };
    struct Model {
        std::vector<Source> src;
        bool reported{false};
        double lastReported{0};
        int64_t lastUpdate{-1};
    };
    std::vector<Model> models;

    /** accept what the input accepts, in order, up to and including time t */
    void accept(size_t i, int64_t t)
    {
        const auto& I = ins[i];
        for (size_t k = 0; k < I.pubs.size(); ++k) {
            auto& S = models[i].src[k];
            const auto& evs = sent[static_cast<size_t>(I.pubs[k])];
            while (S.next < evs.size() && evs[S.next].ts <= t) {
                const auto e = evs[S.next++];
                if (S.accepted && I.gap > 0 && e.ts - S.lastAccepted.ts < I.gap) {
                    chk::count("values held back by a gap");
                    continue;
                }
                if (S.accepted && (I.onChange || I.fedOnChange) && e.value == S.lastAccepted.value) {
                    chk::count("unchanged values held back");
                    continue;
                }
                S.accepted = true;
                S.lastAccepted = e;
                S.queue.push_back(e);
            }
        }
    }
    int64_t wake(int r, int64_t from, int64_t request)
    {
        int64_t w = request;
        for (size_t i = 0; i < ins.size(); ++i) {
            if (ins[i].reader != r || ins[i].ignore) {
                continue;
            }
            // the first accepted value after from
            auto copy = models[i];
            accept(i, request);
            for (auto& S : models[i].src) {
                for (auto& e : S.queue) {
                    if (e.ts > from) {
                        w = std::min(w, e.ts);
                    }
                }
            }
            models[i] = copy;
        }
        return w;
    }

    void check(Federate& fed, Input& in, size_t i, int64_t t, const std::vector<int>& order)
    {
        (void)fed;
        const auto& I = ins[i];
        auto& M = models[i];
        accept(i, t);
        bool event = false;
        for (auto& S : M.src) {
            if (S.queue.empty()) {
                continue;
            }
            const auto e = S.queue.back();
            S.queue.clear();
            if (S.have && (I.onChange || I.fedOnChange) && S.current.value == e.value) {
                continue;
            }
            S.have = true;
            S.current = e;
            event = true;
        }
        if (event) {
            M.lastUpdate = t;
        }
        const bool updated = in.isUpdated();
        const auto last = in.getLastUpdate();
        bool any = false;
        for (auto& S : M.src) {
            any = any || S.have;
        }
        if (!any) {
            if (updated) {
                chk::fail("updated-without-value", "f%d at %lld ms: input %s says it has a new value, nothing was published for it", I.reader, static_cast<long long>(t), I.name.c_str());
            }
            return;
        }
        // the sources in the order of the input
        int best = -1;
        auto higher = [&](int a, int b) {
            for (auto p = I.priority.rbegin(); p != I.priority.rend(); ++p) {
                if (*p == a) {
                    return true;
                }
                if (*p == b) {
                    return false;
                }
            }
            return false;
        };
        bool tie = false;
        for (size_t k = 0; k < order.size(); ++k) {
            const auto& S = M.src[static_cast<size_t>(order[k])];
            if (!S.have) {
                continue;
            }
            if (best < 0) {
                best = static_cast<int>(k);
                continue;
            }
            const auto& B = M.src[static_cast<size_t>(order[static_cast<size_t>(best)])];
            tie = tie || S.current.ts == B.current.ts;
            if (S.current.ts > B.current.ts || (S.current.ts == B.current.ts && higher(static_cast<int>(k), best))) {
                best = static_cast<int>(k);
            }
        }
        if (tie && !I.priority.empty()) {
            chk::count("ties decided by priority");
        }
        double expect = M.src[static_cast<size_t>(order[static_cast<size_t>(best)])].current.value;
        std::vector<double> expectVector;
        if (I.op != 0) {
            chk::count("reads of combined sources");
            std::vector<double> v;
            for (auto k : order) {
                const auto& S = M.src[static_cast<size_t>(k)];
                if (S.have) {
                    v.push_back(S.current.value);
                }
            }
            double sum = 0;
            for (auto x : v) {
                sum += x;
            }
            switch (I.op) {
                case VECTORIZE_OPERATION: expectVector = v; break;
                case AND_OPERATION: expect = std::all_of(v.begin(), v.end(), [](double x) { return x != 0; }) ? 1 : 0; break;
                case OR_OPERATION: expect = std::any_of(v.begin(), v.end(), [](double x) { return x != 0; }) ? 1 : 0; break;
                case SUM_OPERATION: expect = sum; break;
                case DIFF_OPERATION:
                    expect = v[0];
                    for (size_t k = 1; k < v.size(); ++k) {
                        expect -= v[k];
                    }
                    break;
                case MAX_OPERATION: expect = *std::max_element(v.begin(), v.end()); break;
                case MIN_OPERATION: expect = *std::min_element(v.begin(), v.end()); break;
                case AVERAGE_OPERATION: expect = sum / static_cast<double>(v.size()); break;
            }
        }
        bool expectUpdate = event;
        if (I.minChange >= 0) {
            if (event && (!M.reported || std::abs(M.lastReported - expect) > I.minChange)) {
                M.reported = true;
                M.lastReported = expect;
            } else {
                expectUpdate = false;
            }
            expect = M.lastReported;
        }
        if (updated != expectUpdate) {
            chk::fail(expectUpdate ? "update-missed" : "update-invented", "f%d at %lld ms: input %s %s", I.reader, static_cast<long long>(t), I.name.c_str(),
                      expectUpdate ? "has a new value and does not say so" : "says it has a new value and has none");
        }
        if (fx::ns(last) != M.lastUpdate * MS) {
            chk::fail("last-update", "f%d at %lld ms: input %s was last updated at %lld ms and says %lld ns", I.reader, static_cast<long long>(t), I.name.c_str(), static_cast<long long>(M.lastUpdate),
                      static_cast<long long>(fx::ns(last)));
        }
        chk::count("values read");
        if (I.op == VECTORIZE_OPERATION) {
            const auto got = in.getValue<std::vector<double>>();
            if (got != expectVector) {
                std::string a, b;
                for (auto x : got) {
                    a += " " + std::to_string(x);
                }
                for (auto x : expectVector) {
                    b += " " + std::to_string(x);
                }
                chk::fail("wrong-value", "f%d at %lld ms: input %s shows the vector%s, expected%s", I.reader, static_cast<long long>(t), I.name.c_str(), a.c_str(), b.c_str());
            }
        } else if (type == STRING) {
            const auto got = in.getValue<std::string>();
            if (got != text(static_cast<int>(expect))) {
                chk::fail("wrong-value", "f%d at %lld ms: input %s shows \"%.60s\", expected value %d", I.reader, static_cast<long long>(t), I.name.c_str(), got.c_str(), static_cast<int>(expect));
            }
        } else {
            const double got = type == INT && I.op == 0 ? static_cast<double>(in.getValue<int64_t>()) : in.getValue<double>();
            if (std::abs(got - expect) > 1e-9) {
                chk::fail("wrong-value", "f%d at %lld ms: input %s shows %g, expected %g", I.reader, static_cast<long long>(t), I.name.c_str(), got, expect);
            }
        }
        if (expectUpdate && in.isUpdated()) {
            chk::fail("update-invented", "f%d at %lld ms: input %s still says it has a new value after it was read", I.reader, static_cast<long long>(t), I.name.c_str());
        }
    }

    void publish(Publication& p, int v) const
    {
        switch (type) {
            case DOUBLE: p.publish(static_cast<double>(v)); break;
            case STRING: p.publish(text(v)); break;
            case INT: p.publish(static_cast<int64_t>(v)); break;
        }
    }

    void publisher(int f)
    {
        const auto& F = feds[static_cast<size_t>(f)];
        auto fi = d.info(f);
        fi.setFlagOption(defs::Flags::UNINTERRUPTIBLE);
        if (F.onChange) {
            fi.setFlagOption(defs::Flags::ONLY_TRANSMIT_ON_CHANGE);
        }
        ValueFederate fed(d.fedName(f), fi);
        std::map<int, Publication*> mine;
        static const char* types[] = {"double", "string", "int"};
        for (size_t p = 0; p < pubs.size(); ++p) {
            const auto& P = pubs[p];
            if (P.fed != f) {
                continue;
            }
            auto& pub = P.global ? fed.registerGlobalPublication(P.name, types[type]) : fed.registerPublication(P.name, types[type]);
            mine[static_cast<int>(p)] = &pub;
            if (P.onChange) {
                pub.setOption(HELICS_HANDLE_OPTION_ONLY_TRANSMIT_ON_CHANGE, 1);
            }
            if (P.gap > 0) {
                pub.setOption(HELICS_HANDLE_OPTION_TIME_RESTRICTED, static_cast<int32_t>(P.gap));
            }
            if (P.minChange >= 0) {
                pub.setMinimumChange(P.minChange);
            }
        }
        fed.enterInitializingMode();
        size_t s = 0;
        if (!F.steps.empty() && F.steps[0].at == 0) {
            for (auto& w : F.steps[0].writes) {
                publish(*mine[w.pub], w.value);
            }
            s = 1;
        }
        fed.enterExecutingMode();
        for (; s < F.steps.size(); ++s) {
            const auto& S = F.steps[s];
            const auto g = fed.requestTime(fx::fromNs(S.at * MS));
            if (fx::ns(g) != S.at * MS) {
                chk::fail("wrong-grant", "publisher f%d asked for %lld ms and was granted %lld ns", f, static_cast<long long>(S.at), static_cast<long long>(fx::ns(g)));
            }
            fx::think(S.think);
            for (auto& w : S.writes) {
                publish(*mine[w.pub], w.value);
                if (w.closes) {
                    mine[w.pub]->close();
                    chk::count("publications closed");
                }
            }
        }
        fed.finalize();
    }

    void reader(int f)
    {
        const auto& F = feds[static_cast<size_t>(f)];
        auto fi = d.info(f);
        if (!F.interruptible) {
            fi.setFlagOption(defs::Flags::UNINTERRUPTIBLE);
        }
        if (F.onChange) {
            fi.setFlagOption(defs::Flags::ONLY_UPDATE_ON_CHANGE);
        }
        ValueFederate fed(d.fedName(f), fi);
        std::map<size_t, Input*> mine;
        std::map<size_t, std::vector<int>> order;
        static const char* types[] = {"double", "string", "int"};
        for (size_t i = 0; i < ins.size(); ++i) {
            const auto& I = ins[i];
            if (I.reader != f) {
                continue;
            }
            auto& in = I.named ? fed.registerInput(I.name, I.op == VECTORIZE_OPERATION ? "vector" : types[type]) : fed.registerInput("", I.op == VECTORIZE_OPERATION ? "vector" : types[type]);
            mine[i] = &in;
            for (auto p : I.pubs) {
                in.addTarget(pubName(p));
            }
            if (I.onChange) {
                in.setOption(HELICS_HANDLE_OPTION_ONLY_UPDATE_ON_CHANGE, 1);
            }
            if (I.gap > 0) {
                in.setOption(HELICS_HANDLE_OPTION_TIME_RESTRICTED, static_cast<int32_t>(I.gap));
            }
            if (I.ignore) {
                in.setOption(HELICS_HANDLE_OPTION_IGNORE_INTERRUPTS, 1);
            }
            if (I.minChange >= 0) {
                in.setMinimumChange(I.minChange);
            }
            if (I.op != 0) {
                in.setOption(HELICS_HANDLE_OPTION_MULTI_INPUT_HANDLING_METHOD, I.op);
            }
            for (auto p : I.priority) {
                in.setOption(HELICS_HANDLE_OPTION_INPUT_PRIORITY_LOCATION, p);
            }
        }
        fed.enterInitializingMode();
        fed.enterExecutingMode();
        for (auto& m : mine) {
            const auto& I = ins[m.first];
            // the order of the sources is the order in which the connections were made
            const std::string targets = fed.getCorePointer()->getSourceTargets(m.second->getHandle());
            std::map<size_t, int> at;
            for (size_t k = 0; k < I.pubs.size(); ++k) {
                const auto name = pubName(I.pubs[k]);
                const auto pos = I.pubs.size() == 1 ? (targets == name ? 0 : std::string::npos) : targets.find("\"" + name + "\"");
                if (pos == std::string::npos) {
                    chk::fail("source-missing", "input %s does not name its source %s: %s", I.name.c_str(), name.c_str(), targets.c_str());
                    continue;
                }
                at[pos] = static_cast<int>(k);
            }
            for (auto& a : at) {
                order[m.first].push_back(a.second);
            }
            check(fed, *m.second, m.first, 0, order[m.first]);
        }
        int64_t now = 0;
        for (size_t r = 0; r < F.requests.size();) {
            const int64_t expect = F.interruptible ? wake(f, now, F.requests[r]) : F.requests[r];
            const auto g = fed.requestTime(fx::fromNs(F.requests[r] * MS));
            if (fx::ns(g) != expect * MS) {
                chk::fail("wrong-grant", "reader f%d asked for %lld ms at %lld and was granted %lld ns, expected %lld ms", f, static_cast<long long>(F.requests[r]), static_cast<long long>(now), static_cast<long long>(fx::ns(g)),
                          static_cast<long long>(expect));
                break;
            }
            now = expect;
            for (auto& m : mine) {
                check(fed, *m.second, m.first, now, order[m.first]);
            }
            if (now == F.requests[r]) {
                fx::think(F.thinks[r]);
                ++r;
            } else {
                chk::count("wake ups by a value");
            }
        }
        fed.finalize();
    }
    void run()
    {
        generate();
        models.resize(ins.size());
        for (size_t i = 0; i < ins.size(); ++i) {
            models[i].src.resize(ins[i].pubs.size());
        }
        fx::pickNetwork();
        d.start();
        fx::runFederates(d, [&](int f) {
            if (feds[static_cast<size_t>(f)].reader) {
                reader(f);
            } else {
                publisher(f);
            }
        });
        chk::nontrivial();
        d.finish();
    }
};

static chk::Register opts("C04", "value_options", 3, [] { Options().run(); });
}  // namespace
