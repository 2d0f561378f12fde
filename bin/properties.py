#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), hook=None, state=()):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/helics/" + f for f in files],
                          "mechanism": [{"name": n, "where": "src/helics/" + w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": "src/helics/" + w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})

TESTS = "The stable tests cover a byte buffer only; the project's own system tests sample a few workloads under whatever schedule the machine happens to produce. "
SCHED = ["schedules", "inputs", "configurations"]

prop("C01", "Granted times follow the requests and the timing properties",
     "A time request is granted a time that is later than the federate's current time, lies on the federate's grid of period and offset, respects its minimum time delta, and never exceeds the requested time rounded up to that grid. "
     "It is earlier than that only when a value or message for the federate is due at the granted time (shifted by its input delay), and never earlier for a federate declared uninterruptible. "
     "Granted times are the same whatever the relative speed of the federates and the network.",
     SCHED, "every workload of requests, periods, offsets, deltas, delays and interrupt settings, on every topology and transport, under every schedule",
     TESTS + "They check single grants for a handful of settings, mostly one core and one schedule.",
     ["core/TimeCoordinator.cpp", "core/TimeCoordinatorProcessing.cpp", "core/TimeDependencies.cpp", "core/ForwardingTimeCoordinator.cpp", "core/FederateState.cpp"],
     [("TimeCoordinator::checkTimeGrant, updateTimeFactors, generateAllowedTime", "core/TimeCoordinator.cpp"),
      ("generateMinTimeUpstream/Total", "core/TimeDependencies.cpp"), ("ForwardingTimeCoordinator", "core/ForwardingTimeCoordinator.cpp")],
     ["Federate::requestTime*", "Federate::getCurrentTime"],
     state=[("TimeData", "next, minimum and event times of a dependency", "core/TimeDependencies.hpp")])
prop("C02", "No federate sees the future or misses the past",
     "When a federate is granted a time, every value published to its inputs and every message sent to its endpoints with an effective time before the granted time has arrived, and none with an effective time after it is visible. "
     "The effective time is the sender's time plus its output delay, or the later time a message was scheduled for.",
     SCHED, "every workload, topology, transport, network delay and schedule",
     TESTS + "They cannot vary the relative speed of federates, brokers and network systematically.",
     ["core/TimeCoordinator.cpp", "core/FederateState.cpp", "core/InputInfo.cpp", "core/EndpointInfo.cpp"],
     [("time coordination between dependencies", "core/TimeCoordinator.cpp"), ("FederateState::fillEventVector*, updateDataTimes", "core/FederateState.cpp")],
     ["Input::getValue", "Endpoint::getMessage", "Federate::requestTime*"])
prop("C03", "Results do not depend on schedule, transport or topology",
     "A co-simulation of deterministic federates whose events do not fall on the same instant gives every federate the same sequence of granted times, values and messages, whatever the transport, the tree of brokers and cores, the relative speed of processes and the delays of the network. "
     "That sequence is the one a sequential reference simulation of the same workload computes.",
     SCHED, "every deterministic workload with distinct event times, run on every transport, broker tree and core sharing, under every schedule and delay",
     TESTS + "They compare fixed expectations, on one transport at a time.",
     ["core/CommonCore.cpp", "core/CoreBroker.cpp", "core/FederateState.cpp", "core/TimeCoordinator.cpp", "network/CommsInterface.cpp"],
     [("conservative time management", "core/TimeCoordinator.cpp"), ("message routing", "core/CoreBroker.cpp")],
     ["Federate::requestTime*", "Input::getValue", "Endpoint::getMessage"])
prop("C04", "An input shows the latest published value, unchanged",
     "After a grant, an input linked to a publication shows the last value published with an effective time before the granted time (values at exactly the granted time may show as well), bit for bit what was published, for every value type and size, and reports an update when and only when a new value arrived since it was last read. "
     "Once a value is visible no older one replaces it, and the options that limit updates (minimum change, minimum time gap, only on change) hold back those values they are meant for and no others.",
     SCHED, "every sequence of publications of every type, link style, option and subscriber count, on every topology and transport",
     TESTS, ["core/InputInfo.cpp", "core/PublicationInfo.cpp", "core/FederateState.cpp", "application_api/Inputs.cpp", "application_api/Publications.cpp", "application_api/HelicsPrimaryTypes.cpp", "application_api/ValueConverter.cpp"],
     [("InputInfo::addData, updateTimeUpTo", "core/InputInfo.cpp"), ("valueExtract", "application_api/HelicsPrimaryTypes.cpp")],
     ["Input::getValue", "Input::isUpdated", "Input::getLastUpdateTime"])
prop("C05", "Every message arrives exactly once, intact, on time",
     "Every message sent to an endpoint whose federate is still running at the message's effective time is received exactly once, with unchanged data, source, destination and time, and not before its effective time. "
     "Messages from one endpoint to another with the same effective time arrive in sending order; no message is received that was not sent.",
     SCHED, "every sequence of sends (immediate, scheduled, default destinations), sizes and destinations on every topology and transport",
     TESTS, ["core/EndpointInfo.cpp", "core/CommonCore.cpp", "core/CoreBroker.cpp", "core/FederateState.cpp", "application_api/Endpoints.cpp", "core/ActionMessage.cpp"],
     [("EndpointInfo::addMessage, updateTimeUpTo", "core/EndpointInfo.cpp"), ("CommonCore::deliverMessage", "core/CommonCore.cpp")],
     ["Endpoint::getMessage", "Endpoint::pendingMessageCount"])
prop("C06", "Filters act on exactly the messages of their endpoints, in order, once",
     "A message between endpoints arrives exactly once per destination its filters give it, changed by every source filter in order and then by the destination filter, on time, with the original addresses kept; dropped messages never arrive. "
     "This holds wherever the filters, cores and endpoints live, and no filter stops the time of the federation.",
     ["schedules", "inputs", "histories"], "every arrangement of delaying, changing, dropping, rerouting and cloning filters over cores, and every interleaving",
     TESTS + "They use one filter per endpoint and quiescent federations.",
     ["core/FilterFederate.cpp", "core/FilterCoordinator.cpp", "core/FilterInfo.hpp", "core/CommonCore.cpp", "application_api/Filters.cpp", "application_api/FilterOperations.cpp", "application_api/MessageOperators.cpp"],
     [("FilterFederate::processMessageFilter, processDestFilterReturn, processFilterReturn, addTimeReturn", "core/FilterFederate.cpp"), ("CommonCore::deliverMessage", "core/CommonCore.cpp"), ("DelayFilterOperation, RerouteFilterOperation, CloneFilterOperation", "application_api/FilterOperations.cpp")],
     ["Filter", "CloningFilter", "Endpoint::getMessage", "Federate::requestTime"])
prop("C08", "Initialization is a barrier and delivers all initial data",
     "No federate enters initializing mode before every federate of the federation asked for it, and none enters executing mode before every federate asked for that. "
     "On entry of executing mode, at time zero, each input shows the last value published to it in initializing mode (its default if there was none) and reports an update accordingly; each message sent in initializing mode is received exactly once by the first grant.",
     SCHED, "every number of federates, broker tree, joining order, join delay, initial publications and messages, link style, blocking or asynchronous entry, under every schedule and network delay",
     TESTS + "A barrier can only be refuted by the right order of joins, acknowledgements and broker messages.",
     ["core/CoreBroker.cpp", "core/CommonCore.cpp", "core/FederateState.cpp", "core/TimeCoordinator.cpp", "application_api/Federate.cpp"],
     [("CoreBroker::allInitReady, executeInitializationOperations", "core/CoreBroker.cpp"), ("CommonCore::allInitReady, checkForLocalDisconnect", "core/CommonCore.cpp"),
      ("TimeCoordinator::checkExecEntry", "core/TimeCoordinator.cpp")],
     ["Federate::enterInitializingMode", "Federate::enterExecutingMode", "Input::getValue", "Endpoint::getMessage"])
prop("C09", "Iteration converges: it ends exactly when nothing new is there",
     "Federates that publish what they derive from their inputs and request iteration if needed go on iterating, at an unchanged time, while any of them has new data, and all of them leave with the common fixed point; an iteration without new data is not granted, and no value arrives with the final grant that was not offered in an iteration. "
     "A forced iteration always iterates at an unchanged time, and values arrive in order and are complete once the iterations end.",
     SCHED, "every start value, topology, transport, schedule and delay, for iterations of the initialization among federates that all see each other or form a chain, and of time steps between two federates",
     TESTS + "Convergence depends on which federate's request, value or grant overtakes which other one.",
     ["core/TimeCoordinator.cpp", "core/TimeCoordinatorProcessing.cpp", "core/TimeDependencies.cpp", "core/FederateState.cpp"],
     [("TimeCoordinator::checkExecEntry, hasIterationData", "core/TimeCoordinator.cpp"), ("checkIfReadyForExecEntry", "core/TimeDependencies.cpp")],
     ["Federate::enterExecutingMode(IterationRequest)", "Federate::requestTimeIterative"])
prop("C10", "Without faults every co-simulation runs to its end",
     "In a federation without faults every blocking call returns: federates join, initialize, are granted their requested times, finish and disconnect, and all cores and brokers then disconnect and terminate by themselves within a bounded time, whatever the schedule and network delay. "
     "No sequence of messages goes on for ever.",
     SCHED, "every workload, topology, transport, order of requests and finalize calls, schedule and network delay",
     TESTS + "A deadlock or livelock needs a particular order of messages; a test on one machine sees the usual one.",
     ["core/CommonCore.cpp", "core/CoreBroker.cpp", "core/TimeCoordinator.cpp", "core/BaseTimeCoordinator.cpp", "core/ForwardingTimeCoordinator.cpp", "core/BrokerBase.cpp"],
     [("checkAndProcessDisconnect, disconnect processing", "core/CoreBroker.cpp"), ("CommonCore::checkAndProcessDisconnect", "core/CommonCore.cpp"),
      ("BrokerBase::queueProcessingLoop", "core/BrokerBase.cpp")],
     ["every blocking call", "Core::waitForDisconnect", "Broker::waitForDisconnect"])
prop("C11", "A federate that leaves does not hold up or disturb the others",
     "When a federate finalizes, disconnects or is destroyed at any point, in any mode, the remaining federates go on: their requests are granted as if the departed federate had no more events, values and messages it sent before remain deliverable, and they can finish and disconnect normally. "
     "A departed federate answers no further calls except with the documented errors and final values.",
     SCHED, "every leaving point (before initialization, in it, between time steps, with outstanding requests of others, with an outstanding asynchronous request of its own), number of leavers and topology",
     TESTS, ["core/CommonCore.cpp", "core/FederateState.cpp", "core/TimeCoordinator.cpp", "core/CoreBroker.cpp", "application_api/Federate.cpp"],
     [("TimeCoordinator::disconnect", "core/TimeCoordinator.cpp"), ("CommonCore::finalize", "core/CommonCore.cpp"), ("Federate::finalize", "application_api/Federate.cpp")],
     ["Federate::finalize", "Federate::requestTime*"])
prop("C12", "A global error ends the co-simulation; a local error only its federate",
     "A global error raised anywhere (by a federate, a core or a broker, or by a local error where errors are declared fatal) reaches every member: all blocked and later calls end with an error or the halted state in bounded time, and every federate can finalize and every core and broker terminates. "
     "A local error stops only the federate that raised it, and the others go on as if it had left.",
     SCHED, "every origin and moment of the error, what each other member is doing at that moment (joining, initializing, iterating, waiting for time, finalizing, asynchronous requests), and topology",
     TESTS, ["core/CommonCore.cpp", "core/FederateState.cpp", "core/CoreBroker.cpp", "application_api/Federate.cpp", "core/BrokerBase.cpp"],
     [("CommonCore::globalError", "core/CommonCore.cpp"), ("CoreBroker::processError", "core/CoreBroker.cpp"), ("Federate::globalError", "application_api/Federate.cpp")],
     ["Federate::requestTime*", "Federate::enterExecutingMode", "Federate::getCurrentMode", "Broker::isConnected"])
prop("C13", "The loss of a member ends the waiting of all others in bounded time",
     "When a process or machine crashes or is cut off for good after the co-simulation has started, every blocked or later call of the surviving federates ends within a time given by the tick, timeout and error settings, with an error or normally, and they can finalize. "
     "Surviving cores and brokers disconnect and terminate, and no wrong grant, value or message is given on the way.",
     ["schedules", "fault_sequences", "crash_points", "configurations"], "every victim (core, sub-broker, root), kind and moment of the loss after initialization, what everybody else is doing, and timeout setting",
     TESTS + "Tests do not kill members, and waiting for real timeouts would take minutes.",
     ["core/TimeoutMonitor.cpp", "core/CoreBroker.cpp", "core/CommonCore.cpp", "core/BrokerBase.cpp"],
     [("TimeoutMonitor::tick, pingSub", "core/TimeoutMonitor.cpp"), ("CMD_CONNECTION_ERROR, processBrokerDisconnect", "core/CoreBroker.cpp"), ("tick processing", "core/BrokerBase.cpp")],
     ["Federate::requestTime*", "Federate::finalize", "Broker::isConnected", "Core::isConnected"])
prop("C14", "Slow networks and stalled processes alone cause no failure",
     "Delays of messages and stalls of processes that stay below the configured timeouts change nothing: nobody is disconnected, no error is raised, and the co-simulation gives its normal results.",
     ["schedules", "fault_sequences", "configurations"], "every pattern of delays and stalls below the timeout of brokers and cores, at any phase",
     TESTS + "Real stalls of tens of seconds are not part of any test.",
     ["core/TimeoutMonitor.cpp", "core/BrokerBase.cpp", "core/CoreBroker.cpp", "core/CommonCore.cpp"],
     [("TimeoutMonitor::tick", "core/TimeoutMonitor.cpp"), ("tick timers", "core/BrokerBase.cpp")],
     ["Federate::requestTime*", "Federate::getCurrentMode"])
prop("C15", "A name has one owner",
     "However many federates, on whatever cores and brokers, claim a name for themselves or for an interface at the same time, exactly one of them gets it and every other is told so by an error that names the duplicate; that error puts nobody else into an error. "
     "Names that nobody else claims, and local names, are always granted, and what the owner of a name publishes or receives under it is its own.",
     ["schedules", "configurations"], "every interleaving of registrations of federates and interfaces of every kind, on every topology and transport",
     TESTS + "They register a duplicate once, one after the other, on one core.",
     ["core/CoreBroker.cpp", "core/CommonCore.cpp", "core/HandleManager.cpp", "core/FederateState.cpp"],
     [("CoreBroker::checkInterfaceCreation, fedRegistration", "core/CoreBroker.cpp"), ("HandleManager", "core/HandleManager.cpp")],
     ["Federate::Federate", "ValueFederate::registerGlobalPublication", "Federate::getCurrentMode"])
prop("C16", "Links are made whatever the order in which both ends appear",
     "An interface that names a target which does not exist yet is linked when the target appears, exactly once per request and with the right kind and flags, whether it was named by the input, the publication, the filter, the endpoint, an alias, a core, a broker or a configuration; the order of registrations and requests makes no difference. "
     "Targets that never appear are reported once to whoever named them at initialization, as an error that stops everybody when they are required, and are never linked to something else.",
     ["schedules", "inputs", "histories"], "every sequence of registrations, requests, aliases and clearings of unknown names, on every topology",
     TESTS + "The two orders race between cores, so a test sees one of them.",
     ["core/UnknownHandleManager.cpp", "core/CoreBroker.cpp", "core/CommonCore.cpp", "core/HandleManager.cpp"],
     [("UnknownHandleManager", "core/UnknownHandleManager.cpp"), ("CoreBroker::FindandNotify*Targets", "core/CoreBroker.cpp")],
     ["Input::getValue", "Endpoint::getMessage", "UnknownHandleManager::checkFor*"])
prop("C17", "Queries are answered, correctly, whoever asks whom and how",
     "A query to a federate, core, broker or the root, asked by a federate, asynchronously or not, or by a broker, in fast or ordered mode, while the federation starts, runs or ends, is answered within its timeout by well-formed JSON. "
     "Once all are initialized and while all are there the answer is right: names, states, times, tags, globals and structures name exactly the members and interfaces that exist, and times lie between what was granted before the question and what may have been granted at the answer.",
     ["schedules", "configurations", "histories"], "every interleaving of queries with registration, time advancement and departure, on every topology and transport",
     TESTS + "They ask single queries of small federations at rest.",
     ["core/CoreBroker.cpp", "core/CommonCore.cpp", "core/FederateState.cpp", "core/queryHelpers.cpp", "common/JsonBuilder.cpp", "application_api/Federate.cpp"],
     [("CoreBroker::processQuery, generateQueryAnswer, initializeMapBuilder", "core/CoreBroker.cpp"), ("CommonCore::query, coreQuery, federateQuery", "core/CommonCore.cpp"),
      ("FederateState::processQuery", "core/FederateState.cpp")],
     ["Federate::query", "Federate::queryAsync", "Federate::queryComplete", "Broker::query"])
prop("C18", "Commands reach exactly their target, once, in order, unchanged",
     "A command sent by a federate, core or broker to a federate comes out of that federate exactly once, with its text and its true source, in the order of its source and mode; one sent in ordered mode is there when a dependent federate is granted a later time. The commands HELICS itself answers (echo, command_status, notify, log, terminate, unknown ones) have exactly their effect on the member they name and no other, and none when remote control is disabled. "
     "Terminating a member, a core or the federation lets everybody else go on or end, never hang.",
     ["schedules", "configurations", "histories"], "every interleaving of commands with time advancement on every topology and transport",
     TESTS + "They send single commands between idle federates.",
     ["core/FederateState.cpp", "core/CommonCore.cpp", "core/CoreBroker.cpp", "core/BrokerBase.cpp", "application_api/Federate.cpp"],
     [("FederateState::sendCommand, getCommand, waitCommand", "core/FederateState.cpp"), ("CommonCore::processCommandInstruction", "core/CommonCore.cpp"),
      ("CoreBroker::processCommandInstruction", "core/CoreBroker.cpp"), ("BrokerBase::processBaseCommands", "core/BrokerBase.cpp")],
     ["Federate::sendCommand", "Federate::getCommand", "Federate::waitCommand", "Broker::sendCommand", "Core::sendCommand"])
prop("C19", "Time barriers hold back every federate and nobody once they are gone",
     "While a time barrier is in place no federate, whenever it joined, is granted the barrier time or a later one; all other steps are granted as without it. "
     "Moving, replacing or clearing barriers, through the broker's functions or by commands with identifiers, lets the federation go on exactly up to the earliest of those left.",
     ["schedules", "histories"], "every interleaving of barrier changes with joins and time requests",
     TESTS + "They set one barrier over two idle federates.",
     ["core/CoreBroker.cpp", "core/TimeCoordinator.cpp", "core/TimeCoordinatorProcessing.cpp", "core/CommonCore.cpp"],
     [("CoreBroker::generateTimeBarrier, setTimeBarrier, clearTimeBarrier", "core/CoreBroker.cpp"), ("TimeCoordinator::processTimeBlockMessage, updateTimeBlocks", "core/TimeCoordinator.cpp")],
     ["Broker::setTimeBarrier", "Broker::clearTimeBarrier", "Federate::requestTime"])
prop("C21", "Every message survives serialization; damaged bytes are rejected",
     "Every action message, of any command, flags, times, names and payload, decodes from its binary, packet and JSON form to the message that was encoded, whatever the byte order of the machine that encoded it and whatever the target object held before. "
     "Bytes that are truncated or damaged are either rejected or decode to some message, without reading outside the buffer given and without losing the following packet of the stream.",
     ["inputs", "fault_sequences"], "every message and every damage to its bytes",
     "The stable tests do not touch the encoding; project tests sample single messages.",
     ["core/ActionMessage.cpp", "core/ActionMessage.hpp", "core/SmallBuffer.hpp"],
     [("ActionMessage::toByteArray, fromByteArray, packetize, depacketize, to_json_string, from_json_string", "core/ActionMessage.cpp")],
     ["ActionMessage"])
prop("C23", "Configured clocks and time limits are kept",
     "A real-time federate gets no grant earlier than its lead before the time granted, and no later than its lag after the time requested, however slow the others are; the grants keep their order, and what it sees stays a consistent history. "
     "A federate that waits longer than its grant timeout reports so once per stage and never early, and a co-simulation longer than its maximum duration is ended while a shorter one is left alone.",
     ["schedules", "histories"], "every schedule, pace of the federates and set of limits",
     TESTS + "They cannot control the clock: real-time tests check a few grants with wide tolerances.",
     ["core/FederateState.cpp", "core/MessageTimer.cpp", "core/TimeCoordinator.cpp", "core/BrokerBase.cpp"],
     [("FederateState::requestTime, timeoutCheck", "core/FederateState.cpp"), ("MessageTimer", "core/MessageTimer.cpp"), ("BrokerBase::queueProcessingLoop", "core/BrokerBase.cpp")],
     ["Federate::requestTime", "Federate::setProperty", "Federate::setLoggingCallback"])
prop("C28", "Log messages are kept in order, bounded, and complete to their consumers",
     "The log buffer holds the most recent messages up to its size, in the order they were pushed, each intact, while any number of threads push, resize, read and clear it. "
     "Reading or resizing it never loses, duplicates or tears a retained message.",
     ["schedules", "histories"], "every interleaving of pushes, resizes, enabling, processing and clearing",
     "The stable tests do not cover it; a test cannot choose the interleaving.",
     ["common/LogBuffer.cpp", "common/LogBuffer.hpp", "core/LogManager.cpp"], [("LogBuffer::push, resize, process", "common/LogBuffer.cpp")],
     ["LogBuffer::process", "LogBuffer::size"])
prop("C29", "The byte buffer behaves as a value, under failing allocations as well",
     "Any sequence of constructions, copies, moves, swaps, assignments, appends, inserts, reserves, resizes, pops, borrows, releases and clears leaves each buffer with exactly the bytes, size and ownership of the obvious sequential model, across the small-size limit and for locked, borrowed and self-overlapping buffers. "
     "A failed allocation leaves the buffer usable and no memory is leaked or freed twice.",
     ["inputs", "histories", "fault_sequences"], "every sequence of operations on several buffers, every size, every failing allocation",
     "The 43 stable tests sample single operations; interactions of states (small, heap, borrowed, locked) are combinatorial, and no test fails an allocation.",
     ["core/SmallBuffer.hpp"], [("SmallBuffer", "core/SmallBuffer.hpp")], ["SmallBuffer"])
prop("C31", "Profiling records reach the file completely and in order, or not at all",
     "Every profiling record added to the buffer is written to the file it was opened with exactly once and in order, by its capacity flushes, an explicit write or its destruction; records added while no file is set are kept for it. "
     "When the disk fails, records that were not written remain or are reported, none is written twice, and nothing crashes.",
     ["inputs", "histories", "fault_sequences"], "every sequence of additions, file changes and writes, every capacity, and disk errors at every write",
     "Tests use one file and no faults.",
     ["core/ProfilerBuffer.cpp"], [("ProfilerBuffer::addMessage, writeFile", "core/ProfilerBuffer.cpp")], ["the profile file"])
prop("C36", "The C interface carries values, messages, times and errors faithfully",
     "Federates driven through the C interface get exactly the values, update flags, messages and times that were published, sent and requested, through every typed, raw and buffer accessor and in any order of them; objects looked up again stand for the same interface. "
     "A call writes only inside the caller's buffer and reports the size it wrote; a call on an invalid object or with an error already set reports an error and does nothing else; messages and buffers the caller keeps do not change until it frees them.",
     ["inputs", "schedules"], "every combination of types, sizes, buffer sizes, handles and call orders, in every schedule and topology",
     "Tests call each function once or twice with fixed values and large enough buffers.",
     ["shared_api_library", "application_api/Inputs.cpp", "application_api/Endpoints.cpp"],
     [("helicsInputGet*, helicsPublicationPublish*", "shared_api_library/ValueFederateExport.cpp"), ("helicsMessage*, helicsEndpointSend*", "shared_api_library/MessageFederateExport.cpp"),
      ("helicsDataBuffer*", "shared_api_library/helicsData.cpp")], ["values, messages, times and error codes at the C interface", "the bytes around each buffer"])
if __name__ == "__main__":
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
