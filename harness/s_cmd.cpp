// Commands (C18) and time barriers (C19) in a running federation
#include "life.hpp"

#include "helics/core/helics_definitions.hpp"

#include <cmath>
#include <nlohmann/json.hpp>

namespace {
using namespace helics;
using chk::flip;
using chk::pick;

HelicsSequencingModes mode(bool ordered)
{
    return ordered ? HELICS_SEQUENCING_MODE_ORDERED : HELICS_SEQUENCING_MODE_FAST;
}

struct CommandRun {
    enum Kind { PLAIN, ECHO, STATUS, NOTIFY, LOG, EMPTYLOG, UNKNOWN_AT, KINDS };
    enum From { FEDERATE, CORE, BROKER, FROMS };
    struct C {
        int kind, target;  // target: federate, or n + c for a core, n + cores + b for a broker, -1 root by keyword
        bool ordered;
        int from;
        uint64_t think;
    };
    struct F {
        int steps{0};
        uint64_t think{0}, join{0};
        int poll{0};  // 0: poll, 1: wait when something must be there
        std::vector<std::vector<C>> at;
    };
    int n{0}, cores{0};
    fx::Deployment d;
    std::vector<F> f;
    std::vector<C> outside;
    // ghost, per target federate
    struct Sent {
        std::string text, source;
        bool ordered;
        int atStep;  // sent by a federate after it was granted that many seconds; -1 otherwise
        uint64_t seq;
    };
    std::vector<std::vector<Sent>> due;  // commands on their way to the users of each federate
    std::vector<std::map<std::string, int>> replies;  // "echo_reply" etc. expected by federate, by reply|source
    std::vector<std::map<std::string, int>> logs;  // expected log texts
    std::vector<std::map<std::string, int>> logged;
    std::vector<int> notifies;  // on their way to or in the queue of the federate
    uint64_t counter{0};
    int through{0};
    int delivered{0};

    C make(int self)
    {
        C c{};
        c.kind = static_cast<int>(pick(KINDS));
        c.ordered = flip(1, 2);
        c.from = self < 0 ? BROKER : static_cast<int>(pick(2));
        c.think = pick(5);
        c.target = static_cast<int>(pick(static_cast<uint64_t>(n)));
        if (c.kind == ECHO || c.kind == LOG || c.kind == UNKNOWN_AT || c.kind == EMPTYLOG) {
            c.target = static_cast<int>(pick(static_cast<uint64_t>(n + cores + d.brokerCount + 1)));
            if (c.target == n + cores + d.brokerCount) {
                c.target = -1;
            }
        }
        if (c.kind == UNKNOWN_AT && c.target >= 0 && c.target < n) {
            c.kind = PLAIN;
        }
        return c;
    }
    void generate()
    {
        n = 1 + static_cast<int>(pick(4));
        d = fx::pickDeployment(n, fx::ANY, 3);
        cores = static_cast<int>(d.coreBroker.size());
        f.resize(static_cast<size_t>(n));
        const int steps = 1 + static_cast<int>(pick(4));
        for (int i = 0; i < n; ++i) {
            auto& x = f[static_cast<size_t>(i)];
            x.steps = steps;
            x.think = pick(6);
            x.join = pick(6);
            x.poll = static_cast<int>(pick(2));
            x.at.resize(static_cast<size_t>(x.steps) + 1);
            for (auto& a : x.at) {
                for (auto k = pick(5); k > 0; --k) {
                    a.push_back(make(i));
                }
            }
        }
        for (auto k = pick(8); k > 0; --k) {
            outside.push_back(make(-1));
        }
        due.resize(f.size());
        replies.resize(f.size());
        logs.resize(f.size());
        logged.resize(f.size());
        notifies.assign(f.size(), 0);
    }
    std::string targetName(const C& c) const
    {
        if (c.target < 0) {
            return (c.think & 1) != 0 ? "root" : "federation";
        }
        if (c.target < n) {
            return d.fedName(c.target);
        }
        return c.target < n + cores ? d.coreName(c.target - n) : d.brokerName(c.target - n - cores);
    }
    /** send one; self < 0: from the broker */
    void send(int self, int step, const C& c, CombinationFederate* fed, Broker* br)
    {
        std::string source = br != nullptr ? d.brokerName(static_cast<int>(c.think) % d.brokerCount) : c.from == CORE ? d.coreName(d.coreOf[static_cast<size_t>(self)]) : d.fedName(self);
        const bool user = br == nullptr && c.from == FEDERATE;
        auto target = targetName(c);
        std::string text;
        const auto id = ++counter;
        const auto ti = static_cast<size_t>(c.target < 0 ? 0 : c.target);
        switch (c.kind) {
            case PLAIN:
                switch (c.think) {
                    case 0:
                        text = "cmd " + std::to_string(id);
                        break;
                    case 1:
                        text = R"({"id":)" + std::to_string(id) + R"(,"color":"#ff00ff"})";
                        break;
                    case 2:
                        text = " #" + std::to_string(id) + " 'a b' ";
                        break;
                    default:
                        text = "echoes " + std::to_string(id) + " \"x\n" + std::string(c.think == 3 ? 3000 : 1, '\0') + "y";
                        break;
                }
                due[ti].push_back({text, source, c.ordered, user ? step : -1, id});
                break;
            case ECHO:
                text = "echo";
                if (user) {
                    auto from = target == "root" || target == "federation" ? d.brokerName(0) : target;
                    ++replies[static_cast<size_t>(self)]["echo_reply|" + from];
                }
                break;
            case STATUS:
                text = "command_status";
                if (user) {
                    ++replies[static_cast<size_t>(self)]["status|" + target];
                }
                break;
            case NOTIFY:
                text = "notify";
                ++notifies[ti];
                if (user) {
                    ++replies[static_cast<size_t>(self)]["notify_response|" + target];
                }
                break;
            case LOG:
                text = "log text" + std::to_string(id);
                if (c.target >= 0 && c.target < n) {
                    ++logs[ti]["text" + std::to_string(id)];
                }
                break;
            case EMPTYLOG:
                text = (c.think & 1) != 0 ? " log" : "log";
                break;
            default:
                text = "unheard_of";
                break;
        }
        chk::phase(source + " sends '" + text + "' to " + target);
        if (chk::verbose()) {
            chk::trace("%s sends '%s' to %s%s", source.c_str(), text.c_str(), target.c_str(), c.ordered ? " ordered" : "");
        }
        if (br != nullptr) {
            br->sendCommand(target, text, mode(c.ordered));
        } else if (c.from == CORE) {
            fed->getCorePointer()->sendCommand(target, text, "", mode(c.ordered));
        } else {
            fed->sendCommand(target, text, mode(c.ordered));
        }
    }
    void received(int i, const std::pair<std::string, std::string>& c)
    {
        const auto si = static_cast<size_t>(i);
        if (chk::verbose()) {
            chk::trace("federate %d got '%s' from %s", i, c.first.c_str(), c.second.c_str());
        }
        std::string key = c.first;
        if (key.find("unprocessed commands") != std::string::npos) {
            // the number is that of commands it had not read when it answered
            const auto num = std::strtol(key.c_str() + 1, nullptr, 10);
            if (key[0] != '"' || num < 0 || num > static_cast<long>(counter)) {
                chk::fail("command-status", "'%s'", key.c_str());
            }
            key = "status";
        }
        auto r = replies[si].find(key + "|" + c.second);
        if (r != replies[si].end()) {
            if (--r->second < 0) {
                chk::fail("reply-twice", "federate %d got '%s' from %s too often", i, c.first.c_str(), c.second.c_str());
            }
            ++delivered;
            return;
        }
        auto it = std::find_if(due[si].begin(), due[si].end(), [&](const Sent& s) { return s.text == c.first; });
        if (it == due[si].end()) {
            chk::fail("command-unexpected", "federate %d got '%s' from %s", i, c.first.c_str(), c.second.c_str());
        }
        if (it->source != c.second) {
            chk::fail("command-source", "federate %d got '%s' of %s as from %s", i, c.first.c_str(), it->source.c_str(), c.second.c_str());
        }
        for (auto p = due[si].begin(); p != it; ++p) {
            if (p->source == it->source && p->ordered == it->ordered) {
                chk::fail("command-order", "federate %d got '%s' of %s before '%s'", i, it->text.c_str(), it->source.c_str(), p->text.c_str());
            }
        }
        due[si].erase(it);
        ++delivered;
    }
    bool expecting(int i) const
    {
        const auto si = static_cast<size_t>(i);
        if (!due[si].empty()) {
            return true;
        }
        return std::any_of(replies[si].begin(), replies[si].end(), [](const auto& r) { return r.second > 0; });
    }
    void run()
    {
        fx::pickNetwork();
        chk::describe("%s", d.str().c_str());
        d.start();
        bool stop = false;
        bool all = false;
        bool outsideDone = false;
        std::thread observer([&] {
            sim::nameFiber("observer");
            for (auto& c : outside) {
                while (!all && !stop) {
                    sim::sleepNs(1'000'000);
                }
                if (stop) {
                    break;
                }
                fx::think(c.think + 1);
                const auto b = static_cast<size_t>(static_cast<int>(c.think) % d.brokerCount);
                sim::setNode(fx::Deployment::brokerNode(static_cast<int>(b)));
                send(-1, -1, c, nullptr, d.brokers[b].get());
            }
            outsideDone = true;
        });
        int inits = 0;
        int sent = 0;
        fx::runFederates(d, [&](int i) {
            const auto si = static_cast<size_t>(i);
            auto& x = f[si];
            fx::think(x.join);
            auto fi = d.info(i);
            fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, 1.0);
            fi.setProperty(HELICS_PROPERTY_INT_LOG_LEVEL, HELICS_LOG_LEVEL_SUMMARY);
            fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE);
            auto fed = std::make_unique<CombinationFederate>(d.fedName(i), fi);
            fed->setLoggingCallback([this, si](int, std::string_view, std::string_view m) {
                const auto p = m.find("text");
                if (p != std::string_view::npos) {
                    ++logged[si][std::string(m.substr(p))];
                }
            });
            auto& pub = fed->registerGlobalPublication<int64_t>("p" + std::to_string(i));
            auto& in = fed->registerInput<int64_t>("in");
            for (int j = 0; j < n; ++j) {
                in.addTarget("p" + std::to_string(j));
            }
            fed->enterInitializingMode();
            if (++inits == n) {
                all = true;
            }
            auto step = [&](int s) {
                // ordered commands others sent before they moved on are here
                int waiting = 0;
                auto deadline = [&](const Sent& c) {
                    return c.ordered && c.atStep >= 0 && c.atStep < s && s <= f[static_cast<size_t>(std::stoi(c.source.substr(1)))].steps;
                };
                for (const auto& c : due[si]) {
                    if (deadline(c)) {
                        ++waiting;
                    }
                }
                if (waiting > 0 && x.poll == 1) {
                    const auto t0 = sim::nowNs();
                    received(i, fed->waitCommand());
                    if (sim::nowNs() != t0) {
                        chk::count("reach.waited_for_a_command");
                    }
                }
                for (auto c = fed->getCommand(); !c.first.empty(); c = fed->getCommand()) {
                    received(i, c);
                }
                if (s > 0) {
                    for (const auto& c : due[si]) {
                        if (deadline(c)) {
                            chk::fail("command-late", "federate %d at %d s has not got '%s' that %s sent at %d s", i, s, c.text.c_str(), c.source.c_str(), c.atStep);
                        }
                    }
                }
                for (auto& c : x.at[static_cast<size_t>(s)]) {
                    fx::think(c.think);
                    send(i, s, c, fed.get(), nullptr);
                }
            };
            // before that a target may be unknown
            while (!all) {
                sim::sleepNs(1'000'000);
            }
            step(0);
            fed->enterExecutingMode();
            for (int s = 1; s <= x.steps; ++s) {
                pub.publish(static_cast<int64_t>(s));
                fx::think((x.think + static_cast<uint64_t>(s)) % 7);
                fed->requestTime(static_cast<double>(s));
                step(s);
            }
            ++sent;
            // everything arrives
            const auto t0 = sim::nowNs();
            while (sent < n || !outsideDone || expecting(i) || through < n) {
                if (sent == n && outsideDone && !expecting(i) && logged[si].size() >= logs[si].size() && notifies[si] >= 0) {
                    notifies[si] = -1;
                    ++through;
                }
                auto c = fed->getCommand();
                if (!c.first.empty()) {
                    received(i, c);
                    continue;
                }
                sim::sleepNs(10'000'000);
                if (sim::nowNs() - t0 > 60'000'000'000) {
                    std::string what;
                    for (int j = 0; j < n; ++j) {
                        for (auto& e : due[static_cast<size_t>(j)]) {
                            what += " '" + e.text + "' of " + e.source + " to " + std::to_string(j);
                        }
                        for (auto& r : replies[static_cast<size_t>(j)]) {
                            if (r.second > 0) {
                                what += " " + r.first + " to " + std::to_string(j);
                            }
                        }
                        for (auto& r : logs[static_cast<size_t>(j)]) {
                            if (logged[static_cast<size_t>(j)].count(r.first) == 0) {
                                what += " log " + r.first + " at " + std::to_string(j);
                            }
                        }
                    }
                    chk::fail("command-lost", "not delivered:%s", what.c_str());
                }
            }
            for (auto& l : logs[si]) {
                if (logged[si][l.first] != 1) {
                    chk::fail("log", "federate %d logged '%s' %d times", i, l.first.c_str(), logged[si][l.first]);
                }
            }
            fed->finalize();
        });
        stop = true;
        observer.join();
        d.finish();
        if (delivered > 0) {
            chk::nontrivial();
        }
        chk::count("reach.commands_delivered", static_cast<uint64_t>(delivered));
    }
};

chk::Register rc("C18", "commands", 4, [] {
    CommandRun r;
    r.generate();
    r.run();
});

/** somebody tells a federate, a core, a broker or the federation to terminate */
struct TerminateRun {
    enum What { FED, CORE, FEDERATION, WHATS };
    void run()
    {
        life::Stepper s;
        s.generate(2, 4, 5, false);
        for (auto& x : s.f) {
            x.leave = life::L_FINALIZE;
            x.msgs.clear();
            x.async = false;
            x.lastStep = 5;
        }
        const auto n = s.n;
        const int from = static_cast<int>(pick(static_cast<uint64_t>(n)));
        const int target = (from + 1 + static_cast<int>(pick(static_cast<uint64_t>(n - 1)))) % n;
        const int what = static_cast<int>(pick(WHATS));
        const int at = 1 + static_cast<int>(pick(4));
        const bool allowed = !flip(1, 3);
        const bool ordered = flip(1, 2);
        auto& d = s.d;
        const int core = d.coreOf[static_cast<size_t>(target)];
        const char* opt = allowed ? " --allow_remote_control" : " --disable_remote_control";
        d.coreArgs += opt;
        d.brokerArgs += opt;
        d.rootArgs += opt;
        const std::string name = what == FED ? d.fedName(target) : what == CORE ? d.coreName(core) : (ordered ? "root" : "federation");
        fx::pickNetwork();
        chk::describe("%s | federate %d tells %s to terminate at %d s%s", d.str().c_str(), from, name.c_str(), at, allowed ? "" : " (not allowed)");
        d.start();
        std::vector<int64_t> reached(static_cast<size_t>(n), 0);
        std::vector<int> cut(static_cast<size_t>(n), 0);
        uint64_t sentAt = 0;
        int joined = 0;
        fx::runFederates(d, [&](int i) {
            const auto si = static_cast<size_t>(i);
            auto& x = s.f[si];
            fx::think(x.join);
            auto fi = d.info(i);
            fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, 1.0);
            fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE);
            auto fed = std::make_unique<CombinationFederate>(d.fedName(i), fi);
            fed->setFlagOption(allowed ? HELICS_FLAG_ALLOW_REMOTE_CONTROL : HELICS_FLAG_DISABLE_REMOTE_CONTROL);
            auto& pub = fed->registerGlobalPublication<int64_t>("p" + std::to_string(i));
            for (int j = 0; j < n; ++j) {
                if (j != i) {
                    fed->registerSubscription("p" + std::to_string(j));
                }
            }
            ++joined;
            try {
                fed->enterExecutingMode();
                for (int k = 1; k <= 5 && cut[si] == 0; ++k) {
                    pub.publish(static_cast<int64_t>(k));
                    fx::think((x.think + static_cast<uint64_t>(k)) % 7);
                    const auto g = fed->requestTime(static_cast<double>(k));
                    if (g >= Time(1e8)) {
                        cut[si] = 1;
                        break;
                    }
                    if (g != Time(static_cast<double>(k))) {
                        chk::fail("grant", "federate %d was granted %g, requested %d", i, static_cast<double>(g), k);
                    }
                    reached[si] = k;
                    if (i == from && k == at) {
                        sentAt = sim::nowNs();
                        fed->sendCommand(name, "terminate", mode(ordered));
                    }
                }
                if (cut[si] == 0 && i == target && sentAt != 0) {
                    // the command comes while this one stays
                    for (int w = 0; w < 100 && allowed && what == FED; ++w) {
                        sim::sleepNs(100'000'000);
                    }
                }
                fed->finalize();
            }
            catch (const std::exception& e) {
                if (!allowed || what == FED) {
                    chk::fail("unexpected-exception", "federate %d: %s", i, e.what());
                }
                cut[si] = 2;
                fed->finalize();
            }
        });
        if (!allowed) {
            for (int i = 0; i < n; ++i) {
                if (reached[static_cast<size_t>(i)] != 5) {
                    chk::fail("terminated", "federate %d ended at %d s although remote control is disabled", i, static_cast<int>(reached[static_cast<size_t>(i)]));
                }
            }
            chk::count("reach.termination_refused");
        } else {
            for (int i = 0; i < n; ++i) {
                const bool hit = what == FEDERATION || (what == FED && i == target) || (what == CORE && d.coreOf[static_cast<size_t>(i)] == core);
                if (!hit && reached[static_cast<size_t>(i)] != 5) {
                    chk::fail("terminated", "federate %d ended at %d s, %s was told to terminate", i, static_cast<int>(reached[static_cast<size_t>(i)]), name.c_str());
                }
                if (hit && ordered && reached[static_cast<size_t>(i)] > at + 3 && what != FEDERATION) {
                    chk::fail("not-terminated", "federate %d went on to %d s although %s was told to terminate at %d s", i, static_cast<int>(reached[static_cast<size_t>(i)]), name.c_str(), at);
                }
                if (cut[static_cast<size_t>(i)] != 0) {
                    chk::count("reach.terminated_federates");
                }
            }
        }
        d.finish();
        chk::nontrivial();
    }
};

chk::Register rt("C18", "terminate", 1, [] { TerminateRun{}.run(); });

/** a controller sets, moves and clears time barriers while the federates step as far as they can */
struct BarrierRun {
    struct Op {
        int via;  // 0: broker API, 1: command of the broker, 2: command of a federate to the root, 3: of the broker to a federate
        double at;  // < 0: clear
        int id;
        uint64_t think;
        int to{-1};  // the federate of 3
    };
    int n{0};
    fx::Deployment d;
    int steps{0};
    std::vector<uint64_t> thinks, joins;
    std::vector<Op> ops;
    int before{0};  // ops done before anybody joins
    // ghost
    std::map<std::pair<int, int>, double> barriers;  // what may be in force now, by federate (-1: all) and id
    std::vector<double> inForce;
    bool slow{false};
    uint64_t version{0};  // counts changes of inForce
    std::vector<int> reached;  // -1: not executing
    std::vector<char> asking;
    bool done{false};

    void generate()
    {
        n = 1 + static_cast<int>(pick(4));
        d = fx::pickDeployment(n, fx::ANY, 3);
        steps = 3 + static_cast<int>(pick(5));
        for (int i = 0; i < n; ++i) {
            thinks.push_back(pick(6));
            joins.push_back(pick(6));
        }
        const auto count = 1 + pick(4);
        for (uint64_t k = 0; k < count; ++k) {
            Op o{};
            o.via = static_cast<int>(pick(4));
            o.at = flip(1, 4) ? -1.0 : 0.5 * static_cast<double>(pick(static_cast<uint64_t>(2 * steps + 2)));
            // the default identifier is that of the broker, 1 for the root
            static const int ids[] = {0, 2, 3};
            o.id = o.via == 0 ? 0 : ids[pick(3)];
            o.think = pick(6);
            if (o.via == 3) {
                o.to = static_cast<int>(pick(static_cast<uint64_t>(n)));
            }
            ops.push_back(o);
        }
        before = static_cast<int>(pick(std::min<uint64_t>(4, count + 1)));
        for (int k = 0; k < before; ++k) {
            if (ops[static_cast<size_t>(k)].via == 3) {
                before = k;
            }
        }
        slow = flip(1, 2);
        inForce.assign(static_cast<size_t>(n), 1e9);
        reached.assign(static_cast<size_t>(n), -1);
        asking.assign(static_cast<size_t>(n), 0);
    }
    double effective() const
    {
        double m = 1e9;
        for (auto& b : barriers) {
            m = std::min(m, b.second);
        }
        return m;
    }
    void settle()
    {
        for (int i = 0; i < n; ++i) {
            double m = 1e9;
            for (auto& b : barriers) {
                if (b.first.first < 0 || b.first.first == i) {
                    m = std::min(m, b.second);
                }
            }
            inForce[static_cast<size_t>(i)] = m;
        }
        ++version;
    }
    void apply(const Op& o, CombinationFederate* fed)
    {
        const auto idText = o.id == 0 ? std::string{} : " " + std::to_string(o.id);
        auto& root = d.brokers[0];
        // nothing is certain while it changes
        inForce.assign(static_cast<size_t>(n), 1e9);
        ++version;
        if (o.at < 0) {
            barriers.erase({o.to, o.id});
        } else {
            barriers[{o.to, o.id}] = o.at;
        }
        chk::phase("barrier " + std::to_string(o.at) + idText + " via " + std::to_string(o.via));
        char num[32];
        std::snprintf(num, sizeof(num), "%g", o.at);
        const auto text = o.at < 0 ? "clear barrier" + idText : std::string("set barrier ") + num + idText;
        if (o.via == 0) {
            if (o.at < 0) {
                root->clearTimeBarrier();
            } else {
                root->setTimeBarrier(o.at);
            }
        } else if (o.via == 3) {
            root->sendCommand(d.fedName(o.to), text, HELICS_SEQUENCING_MODE_ORDERED);
        } else if (o.via == 1 || fed == nullptr) {
            root->sendCommand("root", text, HELICS_SEQUENCING_MODE_ORDERED);
        } else {
            fed->sendCommand("root", text, mode((o.think & 1) != 0));
        }
        chk::count("reach.barrier_changes");
    }
    void run()
    {
        fx::pickNetwork();
        std::string what;
        for (auto& o : ops) {
            char b[64];
            std::snprintf(b, sizeof(b), " %g/%d", o.at, o.id);
            what += b;
            if (o.to >= 0) {
                what += "@f" + std::to_string(o.to);
            }
        }
        chk::describe("%s steps %d barriers%s, %d first", d.str().c_str(), steps, what.c_str(), before);
        d.start();
        std::vector<CombinationFederate*> feds(static_cast<size_t>(n), nullptr);
        if (before > 0) {
            sim::setNode(fx::Deployment::brokerNode(0));
            for (int k = 0; k < before; ++k) {
                apply(ops[static_cast<size_t>(k)], nullptr);
                if (k + 1 < before) {
                    // commands and direct calls travel by different ways
                    sim::sleepNs(1'000'000'000);
                }
            }
            // taken by the broker before others come
            sim::sleepNs(2'000'000'000);
            settle();
        }
        int members = 0;
        std::thread controller([&] {
            sim::nameFiber("controller");
            sim::setNode(fx::Deployment::brokerNode(0));
            while (members < n) {
                sim::sleepNs(1'000'000);
            }
            for (auto k = static_cast<size_t>(before);; ++k) {
                // everybody comes as far as the barrier lets
                const auto eff = effective();
                const auto t0 = sim::nowNs();
                auto goal = steps;
                if (eff <= steps) {
                    goal = static_cast<int>(std::ceil(eff)) - 1;
                }
                if (k == static_cast<size_t>(before) ? true : ops[k - 1].think > 2 || k == ops.size()) {
                    while (!std::all_of(reached.begin(), reached.end(), [&](int r) { return r >= goal; })) {
                        sim::sleepNs(10'000'000);
                        if (sim::nowNs() - t0 > 60'000'000'000) {
                            std::string r;
                            for (auto x : reached) {
                                r += " " + std::to_string(x);
                            }
                            chk::fail("barrier-stuck", "federates only reached%s with a barrier at %g of %d steps", r.c_str(), eff, steps);
                        }
                    }
                    if (eff <= steps) {
                        chk::count("reach.stopped_at_the_barrier");
                        chk::nontrivial();
                    }
                } else {
                    fx::think(ops[k - 1].think);
                }
                if (k == ops.size()) {
                    break;
                }
                apply(ops[k], feds[k % feds.size()]);
                if (ops[k].think != 1 || ops[k].via == 2 || (k + 1 < ops.size() && ops[k + 1].via == 2)) {
                    sim::sleepNs(3'000'000'000);
                    settle();
                }
            }
            while (!barriers.empty()) {
                Op o{};
                o.at = -1.0;
                o.to = barriers.begin()->first.first;
                o.id = barriers.begin()->first.second;
                o.via = o.to >= 0 ? 3 : o.id == 0 ? 0 : 1;
                apply(o, nullptr);
            }
            done = true;
        });
        fx::runFederates(d, [&](int i) {
            const auto si = static_cast<size_t>(i);
            fx::think(joins[si]);
            auto fi = d.info(i);
            fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, 1.0);
            fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE);
            auto fed = std::make_unique<CombinationFederate>(d.fedName(i), fi);
            auto& pub = fed->registerGlobalPublication<int64_t>("p" + std::to_string(i));
            auto& in = fed->registerInput<int64_t>("in");
            for (int j = 0; j < n; ++j) {
                if (j != i) {
                    in.addTarget("p" + std::to_string(j));
                }
            }
            fed->enterInitializingMode();
            feds[si] = fed.get();
            ++members;
            auto guarded = [&](int s, const std::function<Time()>& fn) {
                const auto v = version;
                const auto b = inForce[si];
                const auto g = fn();
                if (g != Time(static_cast<double>(s))) {
                    chk::fail("grant", "federate %d was granted %g, requested %d", i, static_cast<double>(g), s);
                }
                if (v == version && static_cast<double>(g) >= b) {
                    chk::fail("barrier-passed", "federate %d was granted %d s with a barrier at %g s in place", i, s, b);
                }
                reached[si] = s;
            };
            guarded(0, [&] {
                fed->enterExecutingMode();
                return fed->getCurrentTime();
            });
            for (int s = 1; s <= steps; ++s) {
                pub.publish(static_cast<int64_t>(s));
                fx::think((thinks[si] + static_cast<uint64_t>(s)) % 7);
                if (slow) {
                    sim::sleepNs(1'500'000'000);
                }
                guarded(s, [&] { return fed->requestTime(static_cast<double>(s)); });
            }
            // the controller may use this federate to send commands
            while (!done && std::any_of(reached.begin(), reached.end(), [&](int r) { return r < steps; })) {
                sim::sleepNs(10'000'000);
            }
            while (!done) {
                sim::sleepNs(10'000'000);
            }
            fed->finalize();
        });
        controller.join();
        d.finish();
    }
};

chk::Register rb("C19", "barriers", 1, [] {
    BarrierRun r;
    r.generate();
    r.run();
});
}  // namespace
