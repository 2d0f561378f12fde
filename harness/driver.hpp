// Check driver: seeded search over simulated runs, gating, minimisation and replay.
#pragma once
#include "simnet.hpp"
#include "simrt.hpp"

#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace chk {

struct Scenario {
    std::string prop;
    std::string name;
    int weight{1};
    std::function<void()> fn;
    /** adjusts the run configuration (limits) before the run */
    std::function<void(sim::Config&)> tweak;
    /** what a run that ends in this way means; default: anything but OK is a violation */
    bool allowDeadlock{false};
};

/** register a scenario for a property */
struct Register {
    Register(const char* prop,
             const char* name,
             int weight,
             std::function<void()> fn,
             std::function<void(sim::Config&)> tweak = {});
};

/** the property under check in this process */
const std::string& property();

/** record a violation and end the run (does not return when called in a run) */
[[noreturn]] void fail(const std::string& cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
/** count something (fault kinds fired, rare conditions reached); names at most 47 characters */
void count(const char* name, uint64_t n = 1);
/** text of the case, shown as a sample in the evidence and in replay files */
void describe(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
/** a remark on the current phase, added to the detail of hangs */
void phase(const std::string& p);
/** mark the run as non-trivial (the property's subject was exercised) */
void nontrivial();
/** true when a verbose replay was asked for */
bool verbose();
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- workload choices (0 is always the simplest)
inline uint64_t pick(uint64_t n) { return sim::choose(sim::K_WORK, n); }
/** true with probability num/den; false is the simple value */
inline bool flip(uint32_t num, uint32_t den) { return sim::chooseWeighted(sim::K_WORK, 2, num, den) != 0; }
inline bool fault(uint32_t num, uint32_t den) { return sim::chooseWeighted(sim::K_FAULT, 2, num, den) != 0; }

int driverMain(int argc, char** argv);

}  // namespace chk
