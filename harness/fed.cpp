#include "fed.hpp"

namespace fx {

Deployment pickDeployment(int feds, NetMode mode, int maxBrokers, bool oneCore)
{
    Deployment d;
    d.feds = feds;
    static const char* local[] = {"test", "test", "inproc"};
    static const char* net[] = {"tcpss", "tcp", "udp", "tcp"};
    static const char* any[] = {"test", "test", "inproc", "tcpss", "tcp", "udp"};
    switch (mode) {
        case LOCAL_ONLY:
            d.type = local[chk::pick(3)];
            break;
        case NETWORK_ONLY:
            d.type = net[chk::pick(4)];
            break;
        default:
            d.type = any[chk::pick(6)];
            break;
    }
    d.brokerCount = 1 + (maxBrokers > 1 && chk::flip(1, 3) ? 1 + static_cast<int>(chk::pick(static_cast<uint64_t>(maxBrokers - 1))) : 0);
    d.brokerParent.assign(static_cast<size_t>(d.brokerCount), 0);
    for (int b = 2; b < d.brokerCount; ++b) {
        d.brokerParent[static_cast<size_t>(b)] = static_cast<int>(chk::pick(static_cast<uint64_t>(b)));
    }
    d.sharedCores = feds > 1 && (oneCore || chk::flip(1, 3));
    int cores = feds;
    if (d.sharedCores) {
        cores = oneCore ? 1 : 1 + static_cast<int>(chk::pick(static_cast<uint64_t>(feds - 1)));
    }
    d.coreFeds.assign(static_cast<size_t>(cores), 0);
    for (int f = 0; f < feds; ++f) {
        const int c = f < cores ? f : static_cast<int>(chk::pick(static_cast<uint64_t>(cores)));
        d.coreOf.push_back(c);
        ++d.coreFeds[static_cast<size_t>(c)];
    }
    for (int c = 0; c < cores; ++c) {
        d.coreBroker.push_back(d.brokerCount > 1 ? static_cast<int>(chk::pick(static_cast<uint64_t>(d.brokerCount))) : 0);
    }
    // a broker nobody ever joins keeps the co-simulation from starting (by design), so every leaf of
    // the broker tree gets a core; superfluous leaves are dropped
    for (bool again = true; again;) {
        again = false;
        for (int b = d.brokerCount - 1; b > 0; --b) {
            bool used = false;
            for (int c : d.coreBroker) {
                used = used || c == b;
            }
            for (int p = 1; p < d.brokerCount; ++p) {
                used = used || d.brokerParent[static_cast<size_t>(p)] == b;
            }
            if (used) {
                continue;
            }
            size_t from = d.coreBroker.size();
            for (size_t c = 0; c < d.coreBroker.size(); ++c) {
                int same = 0;
                for (int o : d.coreBroker) {
                    same += o == d.coreBroker[c] ? 1 : 0;
                }
                if (d.coreBroker[c] == 0 || same > 1) {
                    from = c;
                    break;
                }
            }
            if (from < d.coreBroker.size()) {
                d.coreBroker[from] = b;
            } else {
                for (int& c : d.coreBroker) {
                    c -= c > b ? 1 : 0;
                }
                for (int& p : d.brokerParent) {
                    p -= p > b ? 1 : 0;
                }
                d.brokerParent.erase(d.brokerParent.begin() + b);
                --d.brokerCount;
            }
            again = true;
            break;
        }
    }
    return d;
}

void pickNetwork()
{
    auto& p = simnet::params();
    static const uint64_t mins[] = {20'000, 1'000, 300'000, 2'000'000};
    p.minDelayNs = mins[sim::choose(sim::K_FAULT, 4)];
    static const uint64_t jit[] = {0, 200'000, 5'000'000, 40'000'000};
    p.jitterNs = jit[sim::choose(sim::K_FAULT, 4)];
    if (chk::fault(1, 3)) {
        p.slowDen = 10;
        p.slowNs = 80'000'000;
    }
    if (chk::fault(1, 3)) {
        p.splitDen = 4;
    }
}

void Deployment::start()
{
    for (int b = 0; b < brokerCount; ++b) {
        std::string args = "--loglevel=no_print " + brokerArgs;
        if (b == 0) {
            args += " --federates=" + std::to_string(rootFederates >= 0 ? rootFederates : feds) + " " + rootArgs;
        } else {
            args += " --broker=" + brokerName(brokerParent[static_cast<size_t>(b)]);
            if (type == "tcpss") {
                // a single-socket broker listens on a fixed default port; a second one on the same
                // machine has to be given another one
                args += " --localport=" + std::to_string(33200 + b);
            }
        }
        std::shared_ptr<helics::Broker> brk;
        const int back = sim::currentNode();
        sim::setNode(brokerNode(b));
        try {
            brk = helics::BrokerFactory::create(helics::core::coreTypeFromString(type), brokerName(b), args);
        }
        catch (const std::exception& e) {
            chk::fail("broker-create", "broker %s (%s): %s", brokerName(b).c_str(), type.c_str(), e.what());
        }
        sim::setNode(back);
        if (!brk->isConnected()) {
            chk::fail("broker-not-connected", "broker %s (%s) did not connect", brokerName(b).c_str(), type.c_str());
        }
        brokers.push_back(std::move(brk));
    }
}

void Deployment::finish(bool expectDisconnect)
{
    chk::phase("broker shutdown");
    for (auto& b : brokers) {
        const bool ok = b->waitForDisconnect(std::chrono::milliseconds(60000));
        if (!ok && expectDisconnect) {
            chk::fail("broker-not-disconnected", "broker %s still connected 60 s after all federates finalized",
                      b->getIdentifier().c_str());
        }
    }
    brokers.clear();
    chk::phase("library cleanup");
    helics::cleanupHelicsLibrary();
}

helics::FederateInfo Deployment::info(int fed) const
{
    const auto f = static_cast<size_t>(fed);
    const auto c = static_cast<size_t>(coreOf[f]);
    helics::FederateInfo fi(helics::core::coreTypeFromString(type));
    fi.coreName = coreName(coreOf[f]);
    fi.coreInitString = "--loglevel=no_print --federates=" + std::to_string(coreFeds[c]) + " --broker=" + brokerName(coreBroker[c]) + " " + coreArgs;
    fi.setProperty(HELICS_PROPERTY_INT_LOG_LEVEL, HELICS_LOG_LEVEL_NO_PRINT);
    return fi;
}

std::string Deployment::str() const
{
    std::string s = type + " feds=" + std::to_string(feds) + " brokers=" + std::to_string(brokerCount);
    s += " cores=[";
    for (size_t c = 0; c < coreFeds.size(); ++c) {
        s += (c != 0 ? " " : "") + std::to_string(coreFeds[c]) + "@b" + std::to_string(coreBroker[c]);
    }
    return s + "]";
}

void runThreads(int n, const std::string& name, const std::function<void(int)>& body)
{
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i) {
        th.emplace_back([i, &name, &body] {
            sim::nameFiber(name + std::to_string(i));
            try {
                body(i);
            }
            catch (const std::exception& e) {
                chk::fail("unexpected-exception", "%s%d: %s", name.c_str(), i, e.what());
            }
        });
    }
    for (auto& t : th) {
        t.join();
    }
}

void runFederates(const Deployment& d, const std::function<void(int)>& body)
{
    runThreads(d.feds, "fed", [&](int i) {
        sim::setNode(d.fedNode(i));
        body(i);
    });
}

void think(uint64_t choice)
{
    static const uint64_t t[] = {0, 0, 100'000, 3'000'000, 60'000'000, 400'000'000};
    const auto v = t[choice % 6];
    if (v != 0) {
        sim::sleepNs(v);
    }
}

std::string payload(const std::string& id, size_t size)
{
    std::string s = id + ":";
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : id) {
        h = (h ^ c) * 0x100000001b3ull;
    }
    while (s.size() < size) {
        h = h * 6364136223846793005ull + 1442695040888963407ull;
        s.push_back(static_cast<char>(h >> 33));
    }
    return s;
}

}  // namespace fx
