// see simrt.hpp.  This file is compiled WITHOUT instrumentation.
#include "simrt.hpp"

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <memory>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <set>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace sim {

static inline uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
Rng::Rng(uint64_t seed)
{
    s[0] = splitmix(seed);
    s[1] = splitmix(seed);
}
uint64_t Rng::next()
{
    uint64_t a = s[0];
    const uint64_t b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return s[1] + b;
}

static constexpr size_t STACK = 1024 * 1024;
static constexpr uint64_t NEVER = UINT64_MAX;

enum FState : uint8_t { RUNNABLE, BLOCKED, DONE };

struct Fiber {
    int id = 0;
    void* sp = nullptr;
    void* stack = nullptr;
    FState state = RUNNABLE;
    const void* waitObj = nullptr;
    const char* waitWhat = "";
    uint64_t deadline = NEVER;
    bool timedOut = false;
    int node = 0;
    int locks = 0;
    uint64_t readySeq = 0;
    int64_t prio = 0;
    void* eh[2] = {nullptr, nullptr};
    int savedErrno = 0;
    bool detached = false;
    bool joined = false;
    void* ret = nullptr;
    void* (*start)(void*) = nullptr;
    void* arg = nullptr;
    std::string name;
    uint64_t sincePreempt = 0;
};

struct Timer {
    uint64_t t;
    uint64_t seq;
    std::function<void()> fn;
};
struct TimerLess {
    bool operator()(const std::shared_ptr<Timer>& a, const std::shared_ptr<Timer>& b) const
    {
        return a->t != b->t ? a->t < b->t : a->seq < b->seq;
    }
};

struct NodeState {
    bool dead = false;
    uint64_t stalledUntil = 0;
};

struct World {
    Config cfg;
    Result res;
    Rng schedRng{1};
    Rng rngs[K_COUNT] = {Rng(1), Rng(2), Rng(3), Rng(4), Rng(5), Rng(6), Rng(7), Rng(8)};
    uint64_t kindCount[K_COUNT] = {};
    uint64_t now = 1'000'000'000ull;  // 1 s
    uint64_t evSeq = 0;
    uint64_t readyCounter = 0;
    uint64_t preemptGap = 0;
    std::vector<Fiber*> fibers;
    Fiber* cur = nullptr;
    void* hostSp = nullptr;
    bool finished = false;
    bool needResched = false;
    std::set<uint64_t> changePoints;
    int64_t lowPrio = 0;
    std::set<std::shared_ptr<Timer>, TimerLess> timers;
    uint64_t timerSeq = 0;
    int netFiber = -1;
    std::map<int, NodeState> nodes;
    std::vector<Fiber*> runnableBuf;
    uint64_t hash = 1469598103934665603ull;
    uint64_t shash = 1469598103934665603ull;
    std::exception_ptr mainEx;
    std::function<void()> mainFn;
};
static World* W = nullptr;
static bool gActive = false;

extern "C" void sim_switch(void** saveSp, void* newSp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8,%rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
.globl sim_entry
.type sim_entry,@function
sim_entry:
    movq %r12,%rdi
    xorl %ebp,%ebp
    andq $-16,%rsp
    call sim_fiber_main
    ud2
.size sim_entry,.-sim_entry
)");
extern "C" void sim_entry();

bool active()
{
    return gActive;
}

static inline void mixInto(uint64_t& h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0x100000001b3ull;
}
void mix(uint64_t v)
{
    if (W) {
        mixInto(W->hash, v);
    }
}
void mixStr(const std::string& s)
{
    for (unsigned char c : s) {
        mix(c);
    }
}

static void swapEh(Fiber* from, Fiber* to)
{
    void** g = reinterpret_cast<void**>(abi::__cxa_get_globals());
    if (from) {
        from->eh[0] = g[0];
        from->eh[1] = g[1];
    }
    g[0] = to ? to->eh[0] : nullptr;
    g[1] = to ? to->eh[1] : nullptr;
}

static void switchTo(Fiber* f)
{
    Fiber* old = W->cur;
    if (f == old) {
        return;
    }
    ++W->res.stats.switches;
    mixInto(W->shash, static_cast<uint64_t>(f->id) + 1);
    mixInto(W->hash, static_cast<uint64_t>(f->id) + 1);
    if (W->cfg.traceLog) {
        fprintf(stderr, "[%llu] switch %d -> %d (%s)\n", (unsigned long long)W->now, old->id, f->id, f->name.c_str());
    }
    old->savedErrno = errno;
    swapEh(old, f);
    W->cur = f;
    f->sincePreempt = 0;
    sim_switch(&old->sp, f->sp);
    errno = W->cur->savedErrno;
}

[[noreturn]] static void toHost()
{
    Fiber* old = W->cur;
    swapEh(old, nullptr);
    gActive = false;
    void* dummy;
    sim_switch(&dummy, W->hostSp);
    abort();
}

std::string describeFibers()
{
    std::string out;
    for (auto* f : W->fibers) {
        if (f->state == DONE) {
            continue;
        }
        char buf[256];
        snprintf(buf, sizeof buf, "#%d[%s] node%d %s %s;", f->id, f->name.c_str(), f->node,
                 f->state == RUNNABLE ? "runnable" : "blocked:", f->state == RUNNABLE ? "" : f->waitWhat);
        out += buf;
        if (out.size() > 3000) {
            break;
        }
    }
    if (getenv("SIM_BT") != nullptr) {  // for bin/fibers.sh: return addresses of the blocked fibers
        static const auto base = [] {
            Dl_info i{};
            dladdr(reinterpret_cast<void*>(&describeFibers), &i);
            return reinterpret_cast<uintptr_t>(i.dli_fbase);
        }();
        for (auto* f : W->fibers) {
            if (f->state == DONE || f == W->cur) {
                continue;
            }
            fprintf(stderr, "BT #%d[%s]", f->id, f->name.c_str());
            auto* sp = static_cast<uintptr_t*>(f->sp);
            auto lo = reinterpret_cast<uintptr_t>(f->stack);
            fprintf(stderr, " %lx", sp[7] - base - 1);
            auto bp = sp[6];
            for (int k = 0; k < 60 && bp > lo && bp < lo + STACK - 16; ++k) {
                fprintf(stderr, " %lx", reinterpret_cast<uintptr_t*>(bp)[1] - base - 1);
                bp = reinterpret_cast<uintptr_t*>(bp)[0];
            }
            fprintf(stderr, "\n");
        }
    }
    return out;
}

void abortRun(End end, const std::string& detail)
{
    W->res.end = end;
    W->res.detail = detail;
    W->finished = true;
    toHost();
}

// ---------------------------------------------------------------- decisions
// shared-memory log of deviations, readable by the parent after a crash
struct DevRec {
    uint32_t kind;
    uint32_t pad;
    uint64_t idx;
    uint64_t val;
};
struct DevShm {
    uint64_t count;
    DevRec rec[400000];
};
static DevShm* gShm = nullptr;
void* devShm()
{
    if (!gShm) {
        gShm = static_cast<DevShm*>(mmap(nullptr, sizeof(DevShm), PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    }
    return gShm;
}
std::map<std::pair<int, uint64_t>, uint64_t> devShmRead()
{
    std::map<std::pair<int, uint64_t>, uint64_t> m;
    if (gShm) {
        for (uint64_t i = 0; i < gShm->count && i < 400000; ++i) {
            m[{static_cast<int>(gShm->rec[i].kind), gShm->rec[i].idx}] = gShm->rec[i].val;
        }
    }
    return m;
}
void devShmReset()
{
    if (gShm) {
        gShm->count = 0;
    }
}
static void record(int kind, uint64_t idx, uint64_t val)
{
    if (gShm && gShm->count < 400000) {
        auto& r = gShm->rec[gShm->count];
        r.kind = static_cast<uint32_t>(kind);
        r.idx = idx;
        r.val = val;
        ++gShm->count;
    }
}

uint64_t chooseWeighted(Kind k, uint64_t n, uint32_t num, uint32_t den)
{
    if (!W || n <= 1) {
        return 0;
    }
    const uint64_t idx = W->kindCount[k]++;
    uint64_t v = 0;
    if (W->cfg.replay) {
        auto it = W->cfg.trace.find({k, idx});
        v = (it == W->cfg.trace.end()) ? 0 : it->second % n;
    } else {
        auto& r = W->rngs[k];
        if (num > 0 && r.below(den) < num) {
            v = 1 + r.below(n - 1);
        }
    }
    if (v != 0) {
        record(k, idx, v);
    }
    mixInto(W->hash, (static_cast<uint64_t>(k) << 56) ^ v);
    return v;
}
uint64_t choose(Kind k, uint64_t n)
{
    if (!W || n <= 1) {
        return 0;
    }
    const uint64_t idx = W->kindCount[k]++;
    uint64_t v = 0;
    if (W->cfg.replay) {
        auto it = W->cfg.trace.find({k, idx});
        v = (it == W->cfg.trace.end()) ? 0 : it->second % n;
    } else {
        v = W->rngs[k].below(n);
    }
    if (v != 0) {
        record(k, idx, v);
    }
    mixInto(W->hash, (static_cast<uint64_t>(k) << 56) ^ v);
    return v;
}

// ---------------------------------------------------------------- scheduler
static bool schedulable(Fiber* f)
{
    if (f->state != RUNNABLE) {
        return false;
    }
    if (f->locks == 0 && f->node != 0) {
        auto it = W->nodes.find(f->node);
        if (it != W->nodes.end()) {
            if (it->second.dead || it->second.stalledUntil > W->now) {
                return false;
            }
        }
    }
    return true;
}

static void makeReady(Fiber* f, bool timedOut)
{
    f->state = RUNNABLE;
    f->waitObj = nullptr;
    f->deadline = NEVER;
    f->timedOut = timedOut;
    f->readySeq = ++W->readyCounter;
    W->needResched = true;
}

static void fireTimers()
{
    for (auto* f : W->fibers) {
        if (f->state == BLOCKED && f->deadline <= W->now) {
            makeReady(f, true);
        }
    }
}

static void gather(bool includeCur)
{
    auto& v = W->runnableBuf;
    v.clear();
    for (auto* f : W->fibers) {
        if ((includeCur || f != W->cur) && schedulable(f)) {
            v.push_back(f);
        }
    }
}

static uint64_t gNextDeadline()
{
    uint64_t t = NEVER;
    for (auto* f : W->fibers) {
        if (f->state == BLOCKED && f->deadline < t) {
            // frozen nodes' timers do not keep the world alive
            auto it = W->nodes.find(f->node);
            if (f->node != 0 && it != W->nodes.end() && it->second.dead && f->locks == 0) {
                continue;
            }
            t = f->deadline;
        }
        if (f->state == RUNNABLE && f->node != 0 && f->locks == 0) {
            auto it = W->nodes.find(f->node);
            if (it != W->nodes.end() && !it->second.dead && it->second.stalledUntil > W->now) {
                t = std::min(t, it->second.stalledUntil);
            }
        }
    }
    return t;
}

static void compact()
{
    if (W->fibers.size() > 64) {
        // drop finished fibers nobody can refer to any more
        size_t done = 0;
        for (auto* f : W->fibers) {
            if (f->state == DONE && (f->joined || f->detached) && f != W->cur) {
                ++done;
            }
        }
        if (done > 32) {
            std::vector<Fiber*> keep;
            for (auto* f : W->fibers) {
                if (f->state == DONE && (f->joined || f->detached) && f != W->cur) {
                    munmap(f->stack, STACK);
                    // the Fiber record itself stays allocated (handles are pointers)
                    f->stack = nullptr;
                } else {
                    keep.push_back(f);
                }
            }
            W->fibers.swap(keep);
        }
    }
}

/** Schedules are fair: the longest waiting fiber of the sorted list runs next when the others have
 * been made ready thousands of times in the meantime. A function of the state only, so that replays
 * need no record of it. */
static bool starved(const std::vector<Fiber*>& v)
{
    return v.size() > 1 && W->readyCounter - v[0]->readySeq > W->cfg.fairness;
}

/** pick and switch to another fiber because the current one cannot go on */
static void reschedule()
{
    for (;;) {
        W->now += W->cfg.stepNs;
        fireTimers();
        gather(true);
        if (!W->runnableBuf.empty()) {
            break;
        }
        const uint64_t t = gNextDeadline();
        if (t == NEVER) {
            abortRun(End::DEADLOCK, describeFibers());
        }
        ++W->res.stats.idleJumps;
        if (t > W->now) {
            W->now = t;
        }
        if (W->now > W->cfg.maxSimNs) {
            abortRun(End::TIME_LIMIT, describeFibers());
        }
    }
    auto& v = W->runnableBuf;
    std::sort(v.begin(), v.end(), [](Fiber* a, Fiber* b) {
        return a->readySeq != b->readySeq ? a->readySeq < b->readySeq : a->id < b->id;
    });
    uint64_t pick = 0;
    if (starved(v)) {
        ++W->res.stats.fairness;
    } else if (v.size() > 1) {
        if (W->cfg.strategy == 1 && !W->cfg.replay) {
            size_t best = 0;
            for (size_t i = 1; i < v.size(); ++i) {
                if (v[i]->prio > v[best]->prio) {
                    best = i;
                }
            }
            const uint64_t idx = W->kindCount[K_NEXT]++;
            if (best != 0) {
                record(K_NEXT, idx, best);
            }
            mixInto(W->hash, (static_cast<uint64_t>(K_NEXT) << 56) ^ best);
            pick = best;
        } else {
            pick = choose(K_NEXT, v.size());
        }
    }
    W->needResched = false;
    switchTo(v[pick]);
    compact();
}

static void checkLimits()
{
    if (W->res.stats.steps > W->cfg.maxSteps) {
        abortRun(End::STEP_LIMIT, describeFibers());
    }
    if (W->now > W->cfg.maxSimNs) {
        abortRun(End::TIME_LIMIT, describeFibers());
    }
}

static uint64_t drawGap()
{
    // geometric with mean preemptDen
    uint64_t g = 1;
    const uint32_t d = W->cfg.preemptDen;
    // inverse transform, integer arithmetic only (no libm dependence)
    while (g < 100ull * d && W->rngs[K_PREEMPT].below(d) != 0) {
        ++g;
    }
    return g;
}

static void preemptTo(size_t k)  // k in 1..n over the other runnable fibers sorted by id
{
    auto& v = W->runnableBuf;
    Fiber* f = v[k - 1];
    ++W->res.stats.preemptions;
    W->cur->readySeq = ++W->readyCounter;
    switchTo(f);
}

void yieldPoint()
{
    if (!gActive) {
        return;
    }
    ++W->res.stats.steps;
    W->now += W->cfg.stepNs;
    checkLimits();
    const uint64_t idx = W->kindCount[K_PREEMPT]++;
    if ((idx & 63) == 0) {
        fireTimers();
    }
    // anti-livelock: a fiber that spins for very long gives way
    if (++W->cur->sincePreempt > 4000) {
        W->cur->sincePreempt = 0;
        forceYield();
        return;
    }
    // a fiber of a killed or stalled node stops here if it may
    if (W->cur->node != 0 && !schedulable(W->cur)) {
        W->cur->readySeq = ++W->readyCounter;
        reschedule();
        return;
    }
    if (W->cfg.replay) {
        auto it = W->cfg.trace.find({K_PREEMPT, idx});
        if (it != W->cfg.trace.end()) {
            gather(false);
            if (!W->runnableBuf.empty()) {
                const size_t k = 1 + (it->second - 1) % W->runnableBuf.size();
                record(K_PREEMPT, idx, k);
                preemptTo(k);
            }
        }
        return;
    }
    if (W->cfg.strategy == 1) {
        bool change = false;
        if (!W->changePoints.empty() && *W->changePoints.begin() <= W->res.stats.steps) {
            W->changePoints.erase(W->changePoints.begin());
            W->cur->prio = --W->lowPrio;
            change = true;
        }
        if (change || W->needResched) {
            W->needResched = false;
            gather(false);
            size_t best = 0;
            int64_t bp = W->cur->prio;
            for (size_t i = 0; i < W->runnableBuf.size(); ++i) {
                if (W->runnableBuf[i]->prio > bp) {
                    bp = W->runnableBuf[i]->prio;
                    best = i + 1;
                }
            }
            if (best != 0) {
                record(K_PREEMPT, idx, best);
                preemptTo(best);
            }
        }
        return;
    }
    if (W->cfg.preemptDen == 0) {
        return;
    }
    if (W->preemptGap == 0) {
        W->preemptGap = drawGap();
    }
    if (--W->preemptGap == 0) {
        gather(false);
        if (!W->runnableBuf.empty()) {
            const size_t k = 1 + W->rngs[K_PREEMPT].below(W->runnableBuf.size());
            record(K_PREEMPT, idx, k);
            preemptTo(k);
        }
    }
}

void forceYield()
{
    if (!gActive) {
        return;
    }
    ++W->res.stats.steps;
    W->now += W->cfg.stepNs;
    checkLimits();
    fireTimers();
    if (W->cfg.strategy == 1) {
        W->cur->prio = --W->lowPrio;
    }
    gather(false);
    W->cur->readySeq = ++W->readyCounter;
    if (W->runnableBuf.empty()) {
        // a spin with nobody else runnable: let time move to the next event
        const uint64_t t = gNextDeadline();
        if (t == NEVER) {
            if (!schedulable(W->cur)) {
                reschedule();
            }
            W->now += 1000;
            return;
        }
        if (t > W->now) {
            W->now = t;
        }
        checkLimits();
        fireTimers();
        gather(false);
        if (W->runnableBuf.empty()) {
            return;
        }
    }
    // choose among the others only
    auto& v = W->runnableBuf;
    std::sort(v.begin(), v.end(), [](Fiber* a, Fiber* b) {
        return a->readySeq != b->readySeq ? a->readySeq < b->readySeq : a->id < b->id;
    });
    uint64_t pick = 0;
    if (starved(v)) {
        ++W->res.stats.fairness;
    } else if (v.size() > 1) {
        if (W->cfg.strategy == 1 && !W->cfg.replay) {
            size_t best = 0;
            for (size_t i = 1; i < v.size(); ++i) {
                if (v[i]->prio > v[best]->prio) {
                    best = i;
                }
            }
            const uint64_t idx = W->kindCount[K_NEXT]++;
            if (best != 0) {
                record(K_NEXT, idx, best);
            }
            mixInto(W->hash, (static_cast<uint64_t>(K_NEXT) << 56) ^ best);
            pick = best;
        } else {
            pick = choose(K_NEXT, v.size());
        }
    }
    switchTo(v[pick]);
}

/** block the current fiber on obj until woken or the deadline; true if timed out */
static bool block(const void* obj, uint64_t deadline, const char* what)
{
    Fiber* f = W->cur;
    ++W->res.stats.steps;
    checkLimits();
    f->state = BLOCKED;
    f->waitObj = obj;
    f->waitWhat = what;
    f->deadline = deadline;
    f->timedOut = false;
    reschedule();
    return f->timedOut;
}
static void wakeAll(const void* obj)
{
    for (auto* f : W->fibers) {
        if (f->state == BLOCKED && f->waitObj == obj) {
            makeReady(f, false);
        }
    }
}
static int wakeOne(const void* obj)
{
    std::vector<Fiber*> ws;
    for (auto* f : W->fibers) {
        if (f->state == BLOCKED && f->waitObj == obj) {
            ws.push_back(f);
        }
    }
    if (ws.empty()) {
        return 0;
    }
    const auto k = choose(K_SIGNAL, ws.size());
    makeReady(ws[k], false);
    return 1;
}

uint64_t nowNs()
{
    return W ? W->now : 0;
}
uint64_t eventSeq()
{
    return ++W->evSeq;
}
int currentFiber()
{
    return (gActive && W->cur) ? W->cur->id : -1;
}
void nameFiber(const std::string& n)
{
    if (gActive) {
        W->cur->name = n;
    }
}
void setNode(int node)
{
    if (gActive) {
        W->cur->node = node;
    }
}
int currentNode()
{
    return gActive ? W->cur->node : 0;
}
void killNode(int node)
{
    W->nodes[node].dead = true;
}
bool nodeDead(int node)
{
    auto it = W->nodes.find(node);
    return it != W->nodes.end() && it->second.dead;
}
void stallNode(int node, uint64_t ns)
{
    W->nodes[node].stalledUntil = W->now + ns;
}
const Stats& stats()
{
    return W->res.stats;
}
void sleepNs(uint64_t ns)
{
    if (!gActive) {
        return;
    }
    if (ns == 0) {
        forceYield();
        return;
    }
    block(nullptr, W->now + ns, "sleep");
}

void logf(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stderr, fmt, ap);
    va_end(ap);
}

// ---------------------------------------------------------------- fibers
static char gTimerObj;

extern "C" void sim_fiber_main(Fiber* f)
{
    f->ret = f->start(f->arg);
    f->state = DONE;
    wakeAll(f);
    for (;;) {
        reschedule();
    }
}

static Fiber* newFiber(void* (*start)(void*), void* arg, int node)
{
    auto* f = new Fiber();
    f->id = static_cast<int>(W->res.stats.fibers++);
    f->start = start;
    f->arg = arg;
    f->node = node;
    f->stack = mmap(nullptr, STACK, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
    if (f->stack == MAP_FAILED) {
        fprintf(stderr, "sim: out of stacks\n");
        abort();
    }
    mprotect(f->stack, 4096, PROT_NONE);
    auto* top = reinterpret_cast<uint64_t*>(static_cast<char*>(f->stack) + STACK - 64);
    *--top = 0;
    *--top = reinterpret_cast<uint64_t>(&sim_entry);
    *--top = 0;  // rbp
    *--top = 0;  // rbx
    *--top = reinterpret_cast<uint64_t>(f);  // r12
    *--top = 0;
    *--top = 0;
    *--top = 0;
    --top;
    *top = 0x0000037f00001f80ull;  // fcw | mxcsr
    f->sp = top;
    f->readySeq = ++W->readyCounter;
    if (W->cfg.strategy == 1) {
        f->prio = 1000 + static_cast<int64_t>(W->rngs[K_PREEMPT].below(1000000));
    }
    W->fibers.push_back(f);
    W->needResched = true;
    return f;
}

static void* mainStart(void*)
{
    try {
        W->mainFn();
    }
    catch (const std::exception& e) {
        W->res.end = End::CRASHED;
        W->res.detail = std::string("exception: ") + e.what();
        W->finished = true;
        toHost();
    }
    W->res.end = End::OK;
    W->finished = true;
    toHost();
}

static void* netLoop(void*)
{
    nameFiber("net");
    for (;;) {
        if (W->timers.empty()) {
            block(&gTimerObj, NEVER, "net-idle");
            continue;
        }
        auto t = *W->timers.begin();
        if (t->t > W->now) {
            block(&gTimerObj, t->t, "net-timer");
            continue;
        }
        W->timers.erase(W->timers.begin());
        t->fn();
        yieldPoint();
    }
    return nullptr;
}

void at(uint64_t tNs, std::function<void()> fn)
{
    auto t = std::make_shared<Timer>();
    t->t = tNs;
    t->seq = W->timerSeq++;
    t->fn = std::move(fn);
    W->timers.insert(t);
    if (W->netFiber < 0) {
        W->netFiber = newFiber(&netLoop, nullptr, 0)->id;
    } else {
        wakeAll(&gTimerObj);
    }
}

Result run(const Config& cfg, std::function<void()> fn)
{
    W = new World();
    W->cfg = cfg;
    uint64_t seed = cfg.seed;
    for (auto& r : W->rngs) {
        r = Rng(splitmix(seed));
    }
    W->mainFn = std::move(fn);
    if (gShm) {
        gShm->count = 0;
    }
    if (cfg.strategy == 1) {
        for (int i = 0; i < cfg.pctDepth; ++i) {
            W->changePoints.insert(1 + W->rngs[K_PREEMPT].below(cfg.pctHorizon));
        }
    }
    Fiber* m = newFiber(&mainStart, nullptr, 0);
    m->name = "main";
    W->cur = m;
    void** g = reinterpret_cast<void**>(abi::__cxa_get_globals());
    void* save[2] = {g[0], g[1]};
    g[0] = nullptr;
    g[1] = nullptr;
    gActive = true;
    sim_switch(&W->hostSp, m->sp);
    gActive = false;
    g[0] = save[0];
    g[1] = save[1];
    W->res.hash = W->hash;
    W->res.schedHash = W->shash;
    W->res.simNs = W->now;
    W->res.deviations = devShmRead();
    return W->res;
}

// ---------------------------------------------------------------- pthread layer
struct MutexOverlay {  // glibc layout prefix
    int lock;
    unsigned count;
    int owner;
    unsigned nusers;
    int kind;
};
static_assert(sizeof(MutexOverlay) <= sizeof(pthread_mutex_t), "");
static MutexOverlay* mo(pthread_mutex_t* m)
{
    return reinterpret_cast<MutexOverlay*>(m);
}

static uint64_t absToDeadline(clockid_t, const struct timespec* ts)
{
    // both clocks read the same simulated time (realtime has a fixed offset)
    return static_cast<uint64_t>(ts->tv_sec) * 1000000000ull + static_cast<uint64_t>(ts->tv_nsec);
}
static constexpr uint64_t REALTIME_OFFSET = 1700000000ull * 1000000000ull;
static uint64_t deadlineOf(clockid_t clk, const struct timespec* ts)
{
    if (ts->tv_sec < 0) {
        return 0;
    }
    uint64_t t = absToDeadline(clk, ts);
    if (clk == CLOCK_REALTIME) {
        t = t > REALTIME_OFFSET ? t - REALTIME_OFFSET : 0;
    }
    return t;
}

static int mutexLock(pthread_mutex_t* m, uint64_t deadline)
{
    auto* o = mo(m);
    const int self = W->cur->id + 1;
    yieldPoint();
    while (o->lock != 0) {
        if (o->owner == self) {
            if ((o->kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
                ++o->count;
                return 0;
            }
            if ((o->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) {
                return EDEADLK;
            }
        }
        if (block(m, deadline, "mutex")) {
            return ETIMEDOUT;
        }
    }
    o->lock = 1;
    o->owner = self;
    o->count = 1;
    ++W->cur->locks;
    return 0;
}
static int mutexUnlock(pthread_mutex_t* m)
{
    auto* o = mo(m);
    if ((o->kind & 3) == PTHREAD_MUTEX_RECURSIVE && o->count > 1) {
        --o->count;
        return 0;
    }
    o->lock = 0;
    o->owner = 0;
    o->count = 0;
    --W->cur->locks;
    wakeAll(m);
    return 0;
}

struct RwOverlay {
    int writer;  // fiber id + 1
    int readers;
};
static RwOverlay* ro(pthread_rwlock_t* r)
{
    return reinterpret_cast<RwOverlay*>(r);
}

static int condWait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline)
{
    mutexUnlock(m);
    bool to = false;
    if (W->cfg.spuriousDen && chooseWeighted(K_SPURIOUS, 2, 1, W->cfg.spuriousDen)) {
        ++W->res.stats.spurious;
        forceYield();
    } else {
        to = block(c, deadline, "cond");
    }
    mutexLock(m, NEVER);
    return to ? ETIMEDOUT : 0;
}

}  // namespace sim

using namespace sim;

template<class F>
static F real(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define EXPORT extern "C" __attribute__((visibility("default"), used))

EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept
{
    memset(m, 0, sizeof(*m));
    if (a) {
        int t = 0;
        pthread_mutexattr_gettype(a, &t);
        mo(m)->kind = t;
    }
    return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t*) noexcept
{
    return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    return active() ? mutexLock(m, NEVER) : 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if (!active()) {
        return 0;
    }
    yieldPoint();
    auto* o = mo(m);
    if (o->lock != 0) {
        if (o->owner == W->cur->id + 1 && (o->kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
            ++o->count;
            return 0;
        }
        return EBUSY;
    }
    o->lock = 1;
    o->owner = W->cur->id + 1;
    o->count = 1;
    ++W->cur->locks;
    return 0;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept
{
    return active() ? mutexLock(m, deadlineOf(CLOCK_REALTIME, ts)) : 0;
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) noexcept
{
    return active() ? mutexLock(m, deadlineOf(c, ts)) : 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if (active()) {
        mutexUnlock(m);
        yieldPoint();
    }
    return 0;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept
{
    memset(c, 0, sizeof(*c));
    return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t*) noexcept
{
    return 0;
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    if (active()) {
        wakeOne(c);
        yieldPoint();
    }
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    if (active()) {
        wakeAll(c);
        yieldPoint();
    }
    return 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    return active() ? condWait(c, m, NEVER) : 0;
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    return active() ? condWait(c, m, deadlineOf(CLOCK_REALTIME, ts)) : ETIMEDOUT;
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
    return active() ? condWait(c, m, deadlineOf(k, ts)) : ETIMEDOUT;
}
EXPORT int pthread_rwlock_init(pthread_rwlock_t* r, const pthread_rwlockattr_t*) noexcept
{
    memset(r, 0, sizeof(*r));
    return 0;
}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept
{
    return 0;
}
static int rwRd(pthread_rwlock_t* r, uint64_t dl, bool tryOnly)
{
    if (!active()) {
        return 0;
    }
    yieldPoint();
    auto* o = ro(r);
    if (o->writer == W->cur->id + 1) {
        return EDEADLK;
    }
    while (o->writer != 0) {
        if (tryOnly) {
            return EBUSY;
        }
        if (block(r, dl, "rwlock-rd")) {
            return ETIMEDOUT;
        }
    }
    ++o->readers;
    ++W->cur->locks;
    return 0;
}
static int rwWr(pthread_rwlock_t* r, uint64_t dl, bool tryOnly)
{
    if (!active()) {
        return 0;
    }
    yieldPoint();
    auto* o = ro(r);
    if (o->writer == W->cur->id + 1) {
        return EDEADLK;
    }
    while (o->writer != 0 || o->readers != 0) {
        if (tryOnly) {
            return EBUSY;
        }
        if (block(r, dl, "rwlock-wr")) {
            return ETIMEDOUT;
        }
    }
    o->writer = W->cur->id + 1;
    ++W->cur->locks;
    return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* r) noexcept
{
    return rwRd(r, NEVER, false);
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* r) noexcept
{
    return rwRd(r, NEVER, true);
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* r) noexcept
{
    return rwWr(r, NEVER, false);
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* r) noexcept
{
    return rwWr(r, NEVER, true);
}
EXPORT int pthread_rwlock_timedrdlock(pthread_rwlock_t* r, const struct timespec* ts) noexcept
{
    return rwRd(r, deadlineOf(CLOCK_REALTIME, ts), false);
}
EXPORT int pthread_rwlock_timedwrlock(pthread_rwlock_t* r, const struct timespec* ts) noexcept
{
    return rwWr(r, deadlineOf(CLOCK_REALTIME, ts), false);
}
EXPORT int pthread_rwlock_clockrdlock(pthread_rwlock_t* r, clockid_t c, const struct timespec* ts) noexcept
{
    return rwRd(r, deadlineOf(c, ts), false);
}
EXPORT int pthread_rwlock_clockwrlock(pthread_rwlock_t* r, clockid_t c, const struct timespec* ts) noexcept
{
    return rwWr(r, deadlineOf(c, ts), false);
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* r) noexcept
{
    if (!active()) {
        return 0;
    }
    auto* o = ro(r);
    if (o->writer == W->cur->id + 1) {
        o->writer = 0;
    } else if (o->readers > 0) {
        --o->readers;
    }
    --W->cur->locks;
    wakeAll(r);
    yieldPoint();
    return 0;
}

EXPORT int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*start)(void*), void* arg) noexcept
{
    if (!active()) {
        fprintf(stderr, "sim: pthread_create outside a run\n");
        abort();
    }
    Fiber* f = newFiber(start, arg, W->cur->node);
    *t = reinterpret_cast<pthread_t>(static_cast<uintptr_t>(f->id) * 64 + 4096);
    yieldPoint();
    return 0;
}
static Fiber* fiberOf(pthread_t t)
{
    const int id = static_cast<int>((static_cast<uintptr_t>(t) - 4096) / 64);
    for (auto* f : W->fibers) {
        if (f->id == id) {
            return f;
        }
    }
    return nullptr;
}
EXPORT int pthread_join(pthread_t t, void** ret)
{
    if (!active()) {
        return 0;
    }
    Fiber* f = fiberOf(t);
    if (!f) {
        return ESRCH;
    }
    if (f == W->cur) {
        return EDEADLK;
    }
    yieldPoint();
    while (f->state != DONE) {
        block(f, NEVER, "join");
    }
    f->joined = true;
    if (ret) {
        *ret = f->ret;
    }
    return 0;
}
EXPORT int pthread_detach(pthread_t t) noexcept
{
    if (active()) {
        if (Fiber* f = fiberOf(t)) {
            f->detached = true;
        }
    }
    return 0;
}
EXPORT pthread_t pthread_self() noexcept
{
    if (active()) {
        return static_cast<pthread_t>(static_cast<uintptr_t>(W->cur->id) * 64 + 4096);
    }
    return static_cast<pthread_t>(64);
}
EXPORT int pthread_once(pthread_once_t* o, void (*fn)())
{
    // 0 = not run, 1 = running, 2 = done
    if (*o == 2) {
        return 0;
    }
    if (!active()) {
        *o = 1;
        fn();
        *o = 2;
        return 0;
    }
    while (*o == 1) {
        block(o, NEVER, "once");
    }
    if (*o == 2) {
        return 0;
    }
    *o = 1;
    try {
        fn();
    }
    catch (...) {
        *o = 0;
        wakeAll(o);
        throw;
    }
    *o = 2;
    wakeAll(o);
    return 0;
}
// guards of function-local statics
EXPORT int __cxa_guard_acquire(__cxxabiv1::__guard* g)
{
    auto* b = reinterpret_cast<volatile uint8_t*>(g);
    for (;;) {
        if (b[0] != 0) {
            return 0;
        }
        if (b[1] == 0) {
            b[1] = 1;
            reinterpret_cast<volatile uint32_t*>(g)[1] = active() ? static_cast<uint32_t>(W->cur->id + 1) : 0;
            return 1;
        }
        if (!active() || reinterpret_cast<volatile uint32_t*>(g)[1] == static_cast<uint32_t>(W->cur->id + 1)) {
            fprintf(stderr, "sim: recursive initialisation of a static\n");
            abort();
        }
        block(g, NEVER, "static-init");
    }
}
EXPORT void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept
{
    auto* b = reinterpret_cast<volatile uint8_t*>(g);
    b[0] = 1;
    b[1] = 0;
    if (active()) {
        wakeAll(g);
    }
}
EXPORT void __cxa_guard_abort(__cxxabiv1::__guard* g) noexcept
{
    auto* b = reinterpret_cast<volatile uint8_t*>(g);
    b[1] = 0;
    if (active()) {
        wakeAll(g);
    }
}
EXPORT int get_nprocs() noexcept { return 8; }
EXPORT int pthread_setname_np(pthread_t, const char*) noexcept
{
    return 0;
}
EXPORT int sched_yield() noexcept
{
    if (active()) {
        forceYield();
    }
    return 0;
}
EXPORT int nanosleep(const struct timespec* ts, struct timespec*)
{
    if (active()) {
        sleepNs(static_cast<uint64_t>(ts->tv_sec) * 1000000000ull + static_cast<uint64_t>(ts->tv_nsec));
    }
    return 0;
}
EXPORT int clock_nanosleep(clockid_t clk, int flags, const struct timespec* ts, struct timespec*)
{
    if (!active()) {
        return 0;
    }
    if (flags & TIMER_ABSTIME) {
        const uint64_t d = deadlineOf(clk, ts);
        sleepNs(d > W->now ? d - W->now : 0);
    } else {
        sleepNs(static_cast<uint64_t>(ts->tv_sec) * 1000000000ull + static_cast<uint64_t>(ts->tv_nsec));
    }
    return 0;
}
EXPORT int usleep(useconds_t us)
{
    if (active()) {
        sleepNs(us * 1000ull);
    }
    return 0;
}
EXPORT unsigned sleep(unsigned s)
{
    if (active()) {
        sleepNs(s * 1000000000ull);
    }
    return 0;
}

static int realClock(clockid_t c, struct timespec* ts)
{
    return static_cast<int>(syscall(SYS_clock_gettime, c, ts));
}
uint64_t simRealNs()
{
    struct timespec ts;
    realClock(CLOCK_MONOTONIC, &ts);
    return static_cast<uint64_t>(ts.tv_sec) * 1000000000ull + static_cast<uint64_t>(ts.tv_nsec);
}
EXPORT int clock_gettime(clockid_t c, struct timespec* ts) noexcept
{
    if (!active()) {
        return realClock(c, ts);
    }
    uint64_t t = W->now;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
        t += REALTIME_OFFSET;
    }
    ts->tv_sec = static_cast<time_t>(t / 1000000000ull);
    ts->tv_nsec = static_cast<long>(t % 1000000000ull);
    return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void*) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
EXPORT time_t time(time_t* t) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) {
        *t = ts.tv_sec;
    }
    return ts.tv_sec;
}
EXPORT pid_t getpid() noexcept
{
    return 4242;
}
EXPORT int gethostname(char* name, size_t len) noexcept
{
    strncpy(name, "simhost", len);
    return 0;
}
EXPORT long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto& x : a) {
        x = va_arg(ap, long);
    }
    va_end(ap);
    if (n == SYS_gettid) {
        return active() ? 100000 + W->cur->id : 100000;
    }
    if (n == SYS_futex && active()) {
        auto* addr = reinterpret_cast<int*>(a[0]);
        const int op = static_cast<int>(a[1]) & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != static_cast<int>(a[2])) {
                errno = EAGAIN;
                return -1;
            }
            uint64_t dl = NEVER;
            if (a[3] != 0) {
                auto* ts = reinterpret_cast<const struct timespec*>(a[3]);
                if (op == FUTEX_WAIT) {
                    dl = W->now + static_cast<uint64_t>(ts->tv_sec) * 1000000000ull +
                        static_cast<uint64_t>(ts->tv_nsec);
                } else {
                    dl = deadlineOf((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
                }
            }
            if (block(addr, dl, "futex")) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            long woken = 0;
            while (woken < a[2] && wakeOne(addr)) {
                ++woken;
            }
            yieldPoint();
            return woken;
        }
        errno = ENOSYS;
        return -1;
    }
    long ret;
    register long r10 asm("r10") = a[3];
    register long r8 asm("r8") = a[4];
    register long r9 asm("r9") = a[5];
    asm volatile("syscall"
                 : "=a"(ret)
                 : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9)
                 : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) {
        errno = static_cast<int>(-ret);
        return -1;
    }
    return ret;
}

// std::random_device and thread count
namespace std {
random_device::result_type random_device::_M_getval()
{
    static uint64_t outside = 0;
    if (!sim::W) {
        return static_cast<result_type>(++outside * 2654435761u);
    }
    // a function of the run's seed and a counter, so that replays see the same values
    uint64_t x = sim::W->cfg.seed * 0x9e3779b97f4a7c15ull + 77 + sim::W->kindCount[sim::K_RANDOM]++;
    return static_cast<result_type>(sim::splitmix(x) >> 16);
}
}  // namespace std

// ---------------------------------------------------------------- atomics (from -fsanitize=thread)
#define ATOMIC_POINT() \
    do { \
        if (gActive) { \
            ++W->res.stats.atomics; \
            yieldPoint(); \
        } \
    } while (0)

#define DEF_ATOMIC(N, T) \
    EXPORT T __tsan_atomic##N##_load(const volatile T* a, int) \
    { \
        ATOMIC_POINT(); \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
    } \
    EXPORT void __tsan_atomic##N##_store(volatile T* a, T v, int) \
    { \
        ATOMIC_POINT(); \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
    } \
    EXPORT T __tsan_atomic##N##_exchange(volatile T* a, T v, int) \
    { \
        ATOMIC_POINT(); \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
    } \
    EXPORT T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) \
    { \
        ATOMIC_POINT(); \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); \
    } \
    EXPORT T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) \
    { \
        ATOMIC_POINT(); \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); \
    } \
    EXPORT T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) \
    { \
        ATOMIC_POINT(); \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); \
    } \
    EXPORT T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) \
    { \
        ATOMIC_POINT(); \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); \
    } \
    EXPORT T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) \
    { \
        ATOMIC_POINT(); \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); \
    } \
    EXPORT T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) \
    { \
        ATOMIC_POINT(); \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); \
    } \
    EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) \
    { \
        ATOMIC_POINT(); \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    } \
    EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) \
    { \
        ATOMIC_POINT(); \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    } \
    EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) \
    { \
        ATOMIC_POINT(); \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        return c; \
    }
DEF_ATOMIC(8, uint8_t)
DEF_ATOMIC(16, uint16_t)
DEF_ATOMIC(32, uint32_t)
DEF_ATOMIC(64, uint64_t)
EXPORT void __tsan_init() {}
EXPORT void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
EXPORT void __tsan_atomic_signal_fence(int) {}

extern "C" {
bool simMsgTrace = false;
void simMsgPrint(const char* text)
{
    const uint64_t t = sim::nowNs();
    fprintf(stderr, "        [%llu.%09llu] node %d fiber %d: %s\n", (unsigned long long)(t / 1000000000ull),
            (unsigned long long)(t % 1000000000ull), sim::currentNode(), sim::currentFiber(), text);
}
}
