#include "cosim.hpp"
#include <cstdlib>
using namespace cs;
// scratch scenario for surveys: options from the environment
static chk::Register x("X", "x", 1, [] {
    Options o;
    auto g = [](const char* n, int d) { const char* v = getenv(n); return v != nullptr ? atoi(v) : d; };
    o.exact = g("X_EXACT", 0) != 0;
    o.values = g("X_VAL", 1) != 0;
    o.messages = g("X_MSG", 1) != 0;
    o.minFeds = g("X_MINF", 2);
    o.maxFeds = g("X_MAXF", 4);
    o.maxBrokers = g("X_MAXB", 3);
    o.timing = g("X_TIM", 1) != 0;
    o.noWait = g("X_NOWAIT", 0) != 0;
    o.inDelays = g("X_IND", 1) != 0;
    o.outDelays = g("X_OUTD", 1) != 0;
    o.apiMix = g("X_API", 1) != 0;
    o.earlyEnd = g("X_EARLY", 1) != 0;
    o.unint = g("X_UNINT", 0);
    o.oneCore = g("X_ONECORE", 0) != 0;
    o.mode = static_cast<fx::NetMode>(g("X_MODE", 0));
    o.network = g("X_NET", 1) != 0;
    runAll(o);
});
