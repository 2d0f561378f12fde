#include "simrt.hpp"
#include "simnet.hpp"
#include "helics/application_api/CombinationFederate.hpp"
#include "helics/application_api/Publications.hpp"
#include "helics/application_api/Inputs.hpp"
#include "helics/application_api/Endpoints.hpp"
#include "helics/core/CoreFactory.hpp"
#include "helics/core/BrokerFactory.hpp"
#include "helics/core/Broker.hpp"
#include "helics/core/coreTypeOperations.hpp"
#include <thread>
#include <cstdio>
#include <cstdlib>
#include <iostream>
using namespace helics;
extern uint64_t simRealNs();
int main(int argc, char** argv)
{
    sim::Config cfg;
    cfg.seed = argc > 1 ? atoll(argv[1]) : 1;
    std::string type = argc > 2 ? argv[2] : "test";
    cfg.strategy = argc > 3 ? atoi(argv[3]) : 0;
    cfg.traceLog = getenv("SIMTRACE") != nullptr;
    auto t0 = simRealNs();
    auto r = sim::run(cfg, [&] {
        simnet::reset();
        auto brk = BrokerFactory::create(core::coreTypeFromString(type), "b1", "--federates=2 --loglevel=warning");
        if (!brk->isConnected()) { printf("broker not connected\n"); }
        auto body = [&](int i) {
            sim::nameFiber("fed" + std::to_string(i));
            FederateInfo fi(core::coreTypeFromString(type));
            fi.coreName = "c" + std::to_string(i);
            fi.coreInitString = "--federates=1 --broker=b1";
            fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, 1.0);
            CombinationFederate fed("f" + std::to_string(i), fi);
            auto& pub = fed.registerGlobalPublication<double>("p" + std::to_string(i));
            auto& sub = fed.registerSubscription("p" + std::to_string(1 - i));
            auto& ep = fed.registerGlobalEndpoint("e" + std::to_string(i));
            fed.enterExecutingMode();
            double t = 0;
            while (t < 5) {
                pub.publish(t + i * 100);
                ep.sendTo("hello" + std::to_string(t), "e" + std::to_string(1 - i));
                t = fed.requestTime(t + 1);
                double v = sub.getValue<double>();
                std::string m;
                while (ep.hasMessage()) { m += std::string(ep.getMessage()->to_string()) + ","; }
                if (getenv("V")) printf("fed%d t=%g v=%g m=%s (sim %.6f)\n", i, t, v, m.c_str(), sim::nowNs() / 1e9);
                sim::mix(static_cast<uint64_t>(v));
            }
            fed.finalize();
        };
        std::thread a(body, 0), b(body, 1);
        a.join();
        b.join();
        brk->waitForDisconnect(std::chrono::milliseconds(10000));
        brk.reset();
        helics::cleanupHelicsLibrary();
    });
    auto t1 = simRealNs();
    printf("end=%d %s hash=%016lx sim=%.6fs steps=%lu sw=%lu fibers=%lu atomics=%lu wall=%.1fms\n", (int)r.end, r.detail.c_str(), r.hash,
           r.simNs / 1e9, r.stats.steps, r.stats.switches, r.stats.fibers, r.stats.atomics, (t1 - t0) / 1e6);
    fflush(stdout);
    _exit(r.end == sim::End::OK ? 0 : 1);
}
