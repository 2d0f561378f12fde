// Deterministic simulation runtime: every thread of the process is a fiber on one OS thread,
// every blocking primitive, clock and random source is routed here, and one decision stream
// (seeded or replayed) decides every interleaving, delay and fault.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace sim {

struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1);
    uint64_t next();
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};

/** decision kinds; each kind has its own counter so that a replayed trace stays aligned */
enum Kind : int {
    K_PREEMPT = 0,  // preempt the running fiber at a schedule point? 0 = no, k = switch to k-th other
    K_NEXT = 1,  // which runnable fiber next (0 = longest waiting)
    K_SIGNAL = 2,  // which waiter a condition signal wakes
    K_SPURIOUS = 3,  // spurious condition wakeup
    K_NET = 4,  // network delay choice
    K_FAULT = 5,  // fault decision
    K_RANDOM = 6,  // value handed to code asking for randomness
    K_WORK = 7,  // workload choice
    K_COUNT = 8
};

struct Config {
    uint64_t seed = 1;
    int strategy = 0;  // 0 = random walk, 1 = PCT-like priorities
    uint32_t preemptDen = 16;  // preempt with probability 1/den at a schedule point (0 = never)
    uint32_t spuriousDen = 0;  // spurious wakeups: 1/den per condition wait (0 = off)
    uint64_t stepNs = 200;  // simulated cost of a schedule point
    uint64_t maxSteps = 4'000'000;  // cap on schedule points
    uint64_t fairness = 2000;  // others made ready before the longest waiting fiber must run
    uint64_t maxSimNs = 4000ull * 1'000'000'000ull;  // cap on simulated time
    int pctDepth = 3;
    uint64_t pctHorizon = 20000;
    bool replay = false;  // decisions come from `trace` (default when missing)
    std::map<std::pair<int, uint64_t>, uint64_t> trace;
    bool traceLog = false;
};

enum class End { OK, DEADLOCK, STEP_LIMIT, TIME_LIMIT, CRASHED };

struct Stats {
    uint64_t steps = 0;
    uint64_t switches = 0;
    uint64_t preemptions = 0;
    uint64_t fairness = 0;  // picks forced by the fairness bound
    uint64_t spurious = 0;
    uint64_t fibers = 0;
    uint64_t idleJumps = 0;
    uint64_t atomics = 0;
};

struct Result {
    End end = End::OK;
    std::string detail;
    uint64_t hash = 0;
    uint64_t schedHash = 0;
    uint64_t simNs = 0;
    Stats stats;
    /** the decisions that differ from the default */
    std::map<std::pair<int, uint64_t>, uint64_t> deviations;
};

/** run fn as the first fiber; returns when fn returns or a limit is hit */
Result run(const Config& cfg, std::function<void()> fn);

/** true while inside run() on a fiber */
bool active();
/** stop the run right now, with the given end state (does not return) */
[[noreturn]] void abortRun(End end, const std::string& detail);

/** a decision among n options, 0 is the default/benign one; weights: probability of a
non-default outcome is num/den */
uint64_t choose(Kind k, uint64_t n);
uint64_t chooseWeighted(Kind k, uint64_t n, uint32_t num, uint32_t den);

uint64_t nowNs();
/** global event sequence number: one per call, total order */
uint64_t eventSeq();
void mix(uint64_t v);  // fold a value into the run hash
void mixStr(const std::string& s);
void yieldPoint();  // schedule point
void forceYield();  // let somebody else run
void sleepNs(uint64_t ns);
int currentFiber();
const char* fiberName(int id);
void nameFiber(const std::string& n);

/** nodes: every fiber belongs to a node, inherited from its creator */
void setNode(int node);
int currentNode();
/** freeze all fibers of a node (a crashed process): each stops at the next point where it holds no
 * lock */
void killNode(int node);
bool nodeDead(int node);
/** stall: fibers of the node are not scheduled for ns (a slow process); same lock rule */
void stallNode(int node, uint64_t ns);

const Stats& stats();
std::string describeFibers();

/** every allocation failure etc. that user code wants to log */
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

/** timers: callbacks run on a dedicated "net" fiber at simulated time t */
void at(uint64_t tNs, std::function<void()> fn);

}  // namespace sim
