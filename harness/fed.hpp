// Deployments of simulated co-simulations: brokers, cores and federates on simulated nodes.
#pragma once
#include "driver.hpp"

#include "helics/application_api/CombinationFederate.hpp"
#include "helics/application_api/Endpoints.hpp"
#include "helics/application_api/FederateInfo.hpp"
#include "helics/application_api/Filters.hpp"
#include "helics/application_api/Inputs.hpp"
#include "helics/application_api/Publications.hpp"
#include "helics/application_api/Translator.hpp"
#include "helics/core/Broker.hpp"
#include "helics/core/BrokerFactory.hpp"
#include "helics/core/Core.hpp"
#include "helics/core/CoreFactory.hpp"
#include "helics/core/coreTypeOperations.hpp"
#include "helics/core/core-exceptions.hpp"
#include "helics/core/helics_definitions.hpp"

#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace fx {
using helics::Time;

inline int64_t ns(Time t) { return t.getBaseTimeCode(); }
inline Time fromNs(int64_t v)
{
    Time t;
    t.setBaseTimeCode(v);
    return t;
}
inline double sec(int64_t v) { return static_cast<double>(v) * 1e-9; }

enum NetMode { ANY, LOCAL_ONLY, NETWORK_ONLY };

/** where everything runs; chosen from the workload stream */
struct Deployment {
    std::string type{"test"};
    int feds{2};
    int brokerCount{1};  // 1 root and brokerCount-1 sub brokers
    std::vector<int> brokerParent;  // parent of sub broker i (1..)
    std::vector<int> coreOf;  // core index per federate
    std::vector<int> coreBroker;  // broker index per core
    std::vector<int> coreFeds;  // number of federates per core
    std::string brokerArgs;  // extra arguments
    std::string rootArgs;  // extra arguments of the root
    std::string coreArgs;
    std::string prefix;  // name prefix
    bool sharedCores{false};
    int rootFederates{-1};  // -1: feds
    std::vector<std::shared_ptr<helics::Broker>> brokers;

    bool network() const { return type != "test" && type != "inproc"; }
    std::string brokerName(int i) const { return prefix + "b" + std::to_string(i); }
    std::string coreName(int c) const { return prefix + "c" + std::to_string(c); }
    std::string fedName(int f) const { return prefix + "f" + std::to_string(f); }
    static int brokerNode(int b) { return 100 + b; }
    static int coreNode(int c) { return 1 + c; }
    int fedNode(int f) const { return coreNode(coreOf[static_cast<size_t>(f)]); }

    void start();
    /** everything is expected to have disconnected by itself; waits and checks */
    void finish(bool expectDisconnect = true);
    helics::FederateInfo info(int fed) const;
    std::string str() const;
};

/** choose transport, topology and sharing for n federates */
Deployment pickDeployment(int feds, NetMode mode = ANY, int maxBrokers = 3, bool oneCore = false);
/** pick network conditions for the run (fault stream), within the tolerance of a healthy run */
void pickNetwork();
/** same-order delays and occasional stalls; ms scale only, no loss */

/** run body(i) on one thread per federate with the federate's node; exceptions are violations
 * unless the body handles them */
void runFederates(const Deployment& d, const std::function<void(int)>& body);
void runThreads(int n, const std::string& name, const std::function<void(int)>& body);

/** random think time between steps */
void think(uint64_t choice);

std::string payload(const std::string& id, size_t size);

}  // namespace fx
