// A generic co-simulation: a workload generated up front, executed by one thread per federate
// against the real library, and a history checked against the rules of the time and data model.
#pragma once
#include "fed.hpp"

#include <map>
#include <set>

namespace cs {
using fx::Deployment;

/** which oracles raise alarms */
enum Oracle : uint32_t {
    O_TIME = 1,  // grant times
    O_CAUSAL = 2,  // nothing from the future, nothing from the past missing
    O_VALUE = 4,  // value delivery and integrity
    O_MSG = 8,  // message delivery and integrity
    O_EXACT = 16,  // everything equals the reference model
    O_ALL = 31
};

struct Options {
    uint32_t oracles{O_ALL};
    bool exact{false};  // disjoint time grids: the reference model determines everything
    bool values{true};
    bool messages{true};
    bool async{false};
    bool timing{true};  // vary the timing parameters
    bool earlyEnd{true};  // federates end at different steps
    bool bigPayload{true};
    bool stalls{false};  // stall processes below the timeouts
    bool network{true};
    fx::NetMode mode{fx::ANY};
    int minFeds{2};
    int maxFeds{4};
    int maxSteps{8};
    int maxBrokers{3};
    bool apiMix{true};
    bool noWait{false};
    bool inDelays{true}, outDelays{true};
    bool filters{false};
    int unint{0};  // 1: every federate uninterruptible, -1: none
    bool oneCore{false};  // all federates on one core
    std::string rootArgs;
    std::string brokerArgs;
    std::string coreArgs;
};

struct Op {
    int kind{0};  // 0 publish, 1 send
    int idx{0};  // publication / source endpoint
    int dest{0};  // endpoint
    int64_t delay{-1};  // sendAt: relative time in ns, -1: plain sendTo
    int size{0};
    int how{0};
};
struct Step {
    std::vector<Op> ops;
    int64_t dt{1'000'000'000};
    int kind{0};  // 0 requestTime(t), 1 requestTimeAdvance, 2 requestNextStep, 3 async
    uint64_t think{0};
};
struct FedSpec {
    int64_t period{0}, offset{0}, delta{1}, inDelay{0}, outDelay{0};
    bool uninterruptible{false}, waitCurrent{false}, onlyOnChange{false};
    std::vector<Step> steps;
    int endMode{0};
    uint64_t thinkInit{0};
};
struct PubSpec {
    int fed{0}, type{0}, size{0};
    std::string key;
};
struct InSpec {
    int fed{0}, pub{0}, how{0};
};
struct EpSpec {
    int fed{0};
    std::string key;
};
struct Spec {
    Deployment dep;
    Options opt;
    std::vector<FedSpec> feds;
    std::vector<PubSpec> pubs;
    std::vector<InSpec> ins;
    std::vector<EpSpec> eps;
    int stalls{0};
    std::string str() const;
};

struct Grant {
    int64_t request, granted;
    int64_t next;  // earliest allowed by the spec
    std::map<int, int> seen;  // input -> index of the publication event visible, -1 none
    std::vector<int> got;  // message ids
};
struct PubEv {
    int64_t ts;
    uint64_t seq;
    int64_t at;  // granted time of the publisher
};
struct MsgEv {
    int from, to, size;
    int64_t ts;
    uint64_t seq;
    int fed;
    int received{0};
    std::string data;
    int64_t recvAt{-1};
};
struct History {
    std::vector<std::vector<Grant>> grants;  // per federate
    std::vector<std::vector<PubEv>> pubs;
    std::vector<MsgEv> msgs;
    std::vector<bool> finished;
};

Spec generate(const Options& opt);
History execute(Spec& s);
void judge(const Spec& s, const History& h);
/** generate, execute, judge */
void runAll(const Options& opt);

int64_t allowed(const FedSpec& f, int64_t t);
int64_t nextPossible(const FedSpec& f, int64_t granted);

}  // namespace cs
