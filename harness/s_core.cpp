// scenarios of the core time and data properties
//
// The free scenarios stay inside the part of the configuration space where HELICS keeps its promises
// (see DESIGN.md, known findings): every federate uninterruptible, or two federates, or one core.
#include "cosim.hpp"

using namespace cs;

/** every topology, transport and timing parameter; uninterruptible federates */
static Options steady()
{
    Options o;
    o.unint = 1;
    o.noWait = true;
    return o;
}
/** federates that messages and values interrupt */
static Options pairOf()
{
    Options o;
    o.exact = true;
    o.maxFeds = 2;
    return o;
}

static chk::Register c01a("C01", "grants_loose", 3, [] {
    auto o = steady();
    o.oracles = O_TIME;
    runAll(o);
});
static chk::Register c01b("C01", "grants_exact", 2, [] {
    auto o = steady();
    o.exact = true;
    o.oracles = O_TIME | O_EXACT;
    runAll(o);
});
static chk::Register c01c("C01", "grants_interrupted", 3, [] {
    auto o = pairOf();
    o.oracles = O_TIME | O_EXACT;
    runAll(o);
});
static chk::Register c02a("C02", "causality_loose", 3, [] {
    auto o = steady();
    o.oracles = O_CAUSAL;
    runAll(o);
});
static chk::Register c02b("C02", "causality_interrupted", 2, [] {
    auto o = pairOf();
    o.oracles = O_CAUSAL | O_EXACT;
    runAll(o);
});
static chk::Register c03a("C03", "reference_model", 3, [] {
    auto o = steady();
    o.exact = true;
    o.maxFeds = 5;
    o.maxSteps = 12;
    o.oracles = O_ALL;
    o.async = true;
    runAll(o);
});
static chk::Register c03b("C03", "reference_model_interrupted", 2, [] {
    auto o = pairOf();
    o.maxSteps = 14;
    o.oracles = O_ALL;
    o.async = true;
    runAll(o);
});
static chk::Register c04a("C04", "values_loose", 2, [] {
    auto o = steady();
    o.messages = false;
    o.oracles = O_VALUE;
    runAll(o);
});
static chk::Register c04b("C04", "values_exact", 2, [] {
    auto o = steady();
    o.messages = false;
    o.exact = true;
    o.oracles = O_VALUE | O_EXACT;
    runAll(o);
});
static chk::Register c04c("C04", "values_interrupted", 2, [] {
    auto o = pairOf();
    o.messages = false;
    o.oracles = O_VALUE | O_EXACT;
    runAll(o);
});
static chk::Register c05a("C05", "messages_loose", 2, [] {
    auto o = steady();
    o.values = false;
    o.oracles = O_MSG;
    runAll(o);
});
static chk::Register c05b("C05", "messages_exact", 2, [] {
    auto o = steady();
    o.values = false;
    o.exact = true;
    o.oracles = O_MSG | O_EXACT;
    runAll(o);
});
static chk::Register c05c("C05", "messages_interrupted", 2, [] {
    auto o = pairOf();
    o.values = false;
    o.oracles = O_MSG | O_EXACT;
    runAll(o);
});
static chk::Register c05d("C05", "messages_one_core", 2, [] {
    auto o = steady();
    o.exact = true;
    o.oneCore = true;
    o.values = false;
    o.maxFeds = 6;
    o.oracles = O_MSG | O_EXACT;
    runAll(o);
});
