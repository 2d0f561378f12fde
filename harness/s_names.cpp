// Names of federates and interfaces: claimed concurrently from everywhere (C15)
#include "fed.hpp"

#include "helics/application_api/ValueConverter.hpp"

#include <map>
#include <set>

namespace {
using namespace helics;
using chk::flip;
using chk::pick;

constexpr int64_t MS = 1'000'000;

struct Names {
    enum Kind { PUB, INPUT, EP, TARGETED, FILTER, KINDS };
    struct Claim {
        Kind kind;
        std::string name;
        bool local;
        uint64_t think;
        bool duplicateHere{false};  // the same federate already has it
    };
    struct Fed {
        std::string name;
        std::vector<Claim> claims;
        uint64_t think{0};
        bool again{false};  // had to take another name
        bool error{false};
        bool executed{false};
        bool stuck{false};
        std::string text;
    };
    int n{0};
    fx::Deployment d;
    std::vector<Fed> feds;
    bool stuck{false};

    /** every name of a federate is claimed by several federates at once */
    void federates()
    {
        n = 2 + static_cast<int>(pick(5));
        d = fx::pickDeployment(n, fx::ANY);
        const auto names = 1 + pick(static_cast<uint64_t>(n));
        std::vector<std::string> name;
        std::vector<uint64_t> thinks;
        std::vector<bool> ask;
        std::vector<std::string> lost(static_cast<size_t>(n)), listed(static_cast<size_t>(n));
        std::string desc = d.str() + " |";
        for (int i = 0; i < n; ++i) {
            name.push_back("name" + std::to_string(pick(names)));
            thinks.push_back(pick(6));
            ask.push_back(flip(1, 2));
            desc += " " + name.back();
        }
        chk::describe("%s", desc.c_str());
        fx::pickNetwork();
        d.start();
        int claimed = 0, asked = 0;
        const int winners = static_cast<int>(std::set<std::string>(name.begin(), name.end()).size());
        fx::runFederates(d, [&](int i) {
            const auto u = static_cast<size_t>(i);
            fx::think(thinks[u]);
            std::unique_ptr<CombinationFederate> fed;
            auto fi = d.info(i);
            try {
                fed = std::make_unique<CombinationFederate>(name[u], fi);
                if (fed->getName() != name[u]) {
                    chk::fail("wrong-name", "f%d is '%s' instead of '%s'", i, fed->getName().c_str(), name[u].c_str());
                }
            }
            catch (const RegistrationFailure& e) {
                lost[u] = e.what();
            }
            ++claimed;
            while (claimed < n) {
                sim::sleepNs(1'000'000);
            }
            if (fed) {
                if (ask[u]) {
                    listed[u] = fed->query("root", "federates");
                }
                ++asked;
                while (asked < winners) {
                    sim::sleepNs(1'000'000);
                }
                fed->finalize();
            }
        });
        std::map<std::string, int> owners, claims;
        for (int i = 0; i < n; ++i) {
            const auto u = static_cast<size_t>(i);
            ++claims[name[u]];
            owners[name[u]] += lost[u].empty() ? 1 : 0;
        }
        for (auto& c : claims) {
            if (owners[c.first] != 1) {
                chk::fail("owners", "%d federates got the name %s, %d claimed it", owners[c.first], c.first.c_str(), c.second);
            }
        }
        for (int i = 0; i < n; ++i) {
            const auto& l = lost[static_cast<size_t>(i)];
            if (!l.empty() && l.find("duplicate") == std::string::npos) {
                chk::fail("wrong-reason", "f%d was refused with: %s", i, l.c_str());
            }
        }
        for (int i = 0; i < n; ++i) {
            const auto& text = listed[static_cast<size_t>(i)];
            for (auto& c : claims) {
                if (text.empty()) {
                    continue;
                }
                size_t found = 0;
                for (auto at = text.find(c.first); at != std::string::npos; at = text.find(c.first, at + 1)) {
                    ++found;
                }
                if (found != 1) {
                    chk::fail("listed", "the root lists %s %d times: %s", c.first.c_str(), static_cast<int>(found), text.c_str());
                }
            }
        }
        if (claims.size() < static_cast<size_t>(n)) {
            chk::count("reach.contested_federate_name");
            chk::nontrivial();
        }
        d.finish(claims.size() == static_cast<size_t>(n));
    }

    void run()
    {
        static const char* prefix[] = {"p", "i", "e", "e", "F"};
        n = 2 + static_cast<int>(pick(4));
        d = fx::pickDeployment(n, fx::ANY);
        const bool conflicts = flip(1, 2);
        std::string desc = d.str() + " |";
        for (int i = 0; i < n; ++i) {
            Fed f;
            f.name = d.fedName(i);
            f.think = pick(6);
            desc += " " + f.name + "(";
            std::set<std::string> mine;
            const int count = static_cast<int>(pick(4));
            for (int k = 0; k < count; ++k) {
                Claim c;
                c.kind = static_cast<Kind>(pick(KINDS));
                c.local = flip(1, 3);
                c.think = pick(4);
                c.name = prefix[c.kind] + std::to_string(pick(2)) + ((conflicts && c.kind != FILTER) || c.local ? "" : "of" + std::to_string(i));
                c.duplicateHere = !mine.insert((c.local ? "local/" : "") + c.name).second;
                desc += (k != 0 ? "," : "") + std::string(c.local ? "./" : "") + c.name + (c.duplicateHere ? "!" : "");
                f.claims.push_back(c);
            }
            desc += ")";
            feds.push_back(f);
        }
        chk::describe("%s", desc.c_str());
        fx::pickNetwork();
        d.start();
        int registered = 0, claimed = 0;
        fx::runFederates(d, [&](int i) {
            auto& f = feds[static_cast<size_t>(i)];
            auto fi = d.info(i);
            fx::think(f.think);
            std::unique_ptr<CombinationFederate> owner;
            try {
                owner = std::make_unique<CombinationFederate>(f.name, fi);
            }
            catch (const RegistrationFailure& e) {
                chk::trace("f%d lost %s: %s", i, f.name.c_str(), e.what());
                f.again = true;
                try {
                    owner = std::make_unique<CombinationFederate>("again" + std::to_string(i), fi);
                }
                catch (const std::exception& e2) {
                    chk::fail("fresh-name-refused", "f%d again%d: %s", i, i, e2.what());
                }
            }
            auto& fed = *owner;
            const std::string mine = f.again ? "again" + std::to_string(i) : f.name;
            if (fed.getName() != mine) {
                chk::fail("wrong-name", "f%d is '%s' instead of '%s'", i, fed.getName().c_str(), mine.c_str());
            }
            fed.setProperty(HELICS_PROPERTY_TIME_PERIOD, fx::fromNs(1000 * MS));
            ++registered;
            while (registered < n) {
                sim::sleepNs(1'000'000);
            }
            auto& hello = fed.registerGlobalPublication("hello/" + mine, "string");
            for (auto& c : f.claims) {
                fx::think(c.think);
                bool refused = false;
                std::string text;
                const std::string full = c.local ? (mine + "/" + c.name) : c.name;
                try {
                    std::string got;
                    const void* object = nullptr;
                    const void* found = nullptr;
                    switch (c.kind) {
                        case PUB: {
                            auto& x = c.local ? fed.registerPublication(c.name, "string") : fed.registerGlobalPublication(c.name, "string");
                            got = x.getName();
                            object = &x;
                            found = &fed.getPublication(c.name);
                        } break;
                        case INPUT: {
                            auto& x = c.local ? fed.registerInput(c.name, "string") : fed.registerGlobalInput(c.name, "string");
                            got = x.getName();
                            object = &x;
                            found = &fed.getInput(c.name);
                        } break;
                        case EP:
                        case TARGETED: {
                            auto& x = c.kind == EP ? (c.local ? fed.registerEndpoint(c.name) : fed.registerGlobalEndpoint(c.name)) :
                                                     (c.local ? fed.registerTargetedEndpoint(c.name) : fed.registerGlobalTargetedEndpoint(c.name));
                            got = x.getName();
                            object = &x;
                            found = &fed.getEndpoint(c.name);
                        } break;
                        default: {
                            auto& x = c.local ? fed.registerFilter(c.name) : fed.registerGlobalFilter(c.name);
                            got = x.getName();
                            object = &x;
                            found = &fed.getFilter(c.name);
                        } break;
                    }
                    if (got != full) {
                        chk::fail("wrong-interface-name", "%s is called '%s'", full.c_str(), got.c_str());
                    }
                    if (object != found) {
                        // the federate may have a local and a global one of this name
                        bool both = false;
                        for (auto& o : f.claims) {
                            both = both || (&o != &c && o.name == c.name);
                        }
                        if (!both) {
                            chk::fail("lookup-other", "looking up %s gives another interface", full.c_str());
                        }
                    }
                }
                catch (const RegistrationFailure& e) {
                    refused = true;
                    text = e.what();
                }
                if (c.duplicateHere && !refused) {
                    chk::fail("duplicate-accepted", "f%d has %s twice", i, full.c_str());
                }
                if (!c.duplicateHere && refused && !sameCore(i, c)) {
                    chk::fail("fresh-interface-refused", "f%d %s: %s", i, full.c_str(), text.c_str());
                }
                if (refused && !c.duplicateHere) {
                    c.duplicateHere = true;  // another federate of the core has it
                }
            }
            ++claimed;
            while (claimed < n) {
                sim::sleepNs(1'000'000);
            }
            // everybody listens to everybody
            std::vector<Input*> in;
            for (int k = 0; k < n; ++k) {
                auto& o = feds[static_cast<size_t>(k)];
                in.push_back(&fed.registerInput("from" + std::to_string(k), "string"));
                in.back()->setDefault(std::string());
                in.back()->addTarget("hello/" + (o.again ? "again" + std::to_string(k) : o.name));
            }
            try {
                // an error just before the initialization may leave others waiting: that is not judged here
                fed.enterExecutingModeAsync();
                for (int k = 0; k < 600 && !fed.isAsyncOperationCompleted(); ++k) {
                    sim::sleepNs(100'000'000);
                }
                if (!fed.isAsyncOperationCompleted()) {
                    f.stuck = true;
                    stuck = true;
                    chk::count("federates left waiting by another one's error");
                    d.brokers[0]->disconnect();
                }
                fed.enterExecutingModeComplete();
                hello.publish("I am " + std::to_string(i));
                for (int s = 1; s <= 3; ++s) {
                    fed.requestTime(fx::fromNs(1000 * MS * s));
                }
                f.executed = fed.getCurrentMode() == Federate::Modes::EXECUTING;
            }
            catch (const std::exception& e) {
                f.error = true;
                f.text = e.what();
                chk::trace("f%d: %s", i, e.what());
            }
            if (f.executed) {
                for (int k = 0; k < n; ++k) {
                    const auto v = in[static_cast<size_t>(k)]->getString();
                    auto& o = feds[static_cast<size_t>(k)];
                    if (v != "I am " + std::to_string(k) && (!v.empty() || !conflicting(k))) {
                        chk::fail("identity", "f%d got '%s' from %s", i, v.c_str(), o.name.c_str());
                    }
                }
            }
            if (!f.stuck) {
                fed.finalize();
            }
        });
        judge();
        d.finish(!stuck);
    }
    // does another federate claim one of the names of this one?
    static int group(Kind k) { return k == TARGETED ? static_cast<int>(EP) : static_cast<int>(k); }
    bool conflicting(int i) const
    {
        for (auto& c : feds[static_cast<size_t>(i)].claims) {
            if (!c.local && !c.duplicateHere) {
                for (int k = 0; k < n; ++k) {
                    for (auto& o : feds[static_cast<size_t>(k)].claims) {
                        if (k != i && !o.local && !o.duplicateHere && o.name == c.name && group(o.kind) == group(c.kind)) {
                            return true;
                        }
                    }
                }
            }
        }
        return false;
    }
    bool sameCore(int i, const Claim& c) const
    {
        for (int k = 0; k < n; ++k) {
            if (k == i || d.coreOf[static_cast<size_t>(k)] != d.coreOf[static_cast<size_t>(i)]) {
                continue;
            }
            for (auto& o : feds[static_cast<size_t>(k)].claims) {
                if (!c.local && !o.local && o.name == c.name && group(o.kind) == group(c.kind)) {
                    return true;
                }
            }
        }
        return false;
    }
    void judge()
    {
        // each name has one owner
        std::map<std::string, int> owners, claims;
        for (auto& f : feds) {
            ++claims[f.name];
            owners[f.name] += f.again ? 0 : 1;
        }
        bool contested = false;
        for (auto& c : claims) {
            contested = contested || c.second > 1;
            if (owners[c.first] != 1) {
                chk::fail("owners", "%d federates got the name %s, %d claimed it", owners[c.first], c.first.c_str(), c.second);
            }
        }
        int errors = 0;
        for (int i = 0; i < n; ++i) {
            auto& f = feds[static_cast<size_t>(i)];
            errors += f.error ? 1 : 0;
            if (stuck && !conflicting(i)) {
                continue;
            }
            if (f.error && !conflicting(i)) {
                chk::fail("wrong-victim", "f%d failed: %s", i, f.text.c_str());
            }
            if (!f.error && !f.executed && !stuck) {
                chk::fail("not-executed", "f%d neither failed nor ran", i);
            }
        }
        // nobody owns two names another running federate owns
        std::map<std::string, int> running;
        for (int i = 0; i < n; ++i) {
            auto& f = feds[static_cast<size_t>(i)];
            if (!f.executed) {
                continue;
            }
            for (auto& c : f.claims) {
                if (!c.local && !c.duplicateHere) {
                    if (++running[std::to_string(group(c.kind)) + c.name] > 1) {
                        chk::fail("two-owners", "two running federates have %s", c.name.c_str());
                    }
                }
            }
        }
        // somebody has each contested name, unless it fell for another one
        if (contested) {
            chk::count("reach.contested_federate_name");
        }
        if (errors > 0) {
            chk::count("reach.duplicate_interface");
        }
        if (contested || errors > 0) {
            chk::nontrivial();
        }
        if (stuck && errors == 0) {
            chk::fail("stuck", "the federation does not start");
        }
        if (errors == n && !stuck) {
            chk::fail("nobody-left", "all %d federates failed", n);
        }
    }
};

chk::Register rn("C15", "interface_names", 60, [] {
    Names x;
    x.run();
});
chk::Register rf("C15", "federate_names", 40, [] {
    Names x;
    x.federates();
});
}  // namespace
