"""What is claimed, per property: level, what makes a run non-trivial, budgets, notes. bin/manifest.py writes
MANIFEST.json from this."""

REAL = ["all of src/helics core, common, network (test, inproc, tcp, tcpss, udp), application_api, apps and the C "
        "shared library code, compiled unmodified from /repo's working tree"]
STUBS = ["threads, mutexes, condition variables, clocks, sleeps: simulated fibers under one seeded scheduler",
         "asio, sockets: simulated network with seeded delays and faults",
         "third-party submodules that are absent from the tree (gmlc containers and concurrency helpers, units, toml, "
         "helics::Time representation): reimplemented in /verif/shim"]
ASSUMPTIONS = ["schedules are fair: a ready thread runs after at most 2000 other wake-ups",
               "sequentially consistent memory; context switches at synchronisation operations, atomics, time and I/O",
               "the shims behave as the missing third-party libraries do"]

CHECKS = {}
NOT_APPLICABLE = {}

def claim(pid, nontrivial, note, design, level="exploration", technique="deterministic simulation, seeded schedule search",
          **kw):
    kw.setdefault("runs", 6000)
    kw.setdefault("quick_s", 35)
    CHECKS[pid] = dict(nontrivial=nontrivial, note=note, design=design, level=level, technique=technique, **kw)

NOTE = ("Seeded search, not exhaustive: a violation that needs a rarer schedule than the budget reaches is missed. ")
COSIM = ("Random co-simulations (2-5 federates, 1-3 brokers, shared or own cores, the test, inproc, tcp, tcpss and udp "
         "transports, periods, offsets, deltas, input and output delays, all request calls, early ends, delayed "
         "messages, bursts, every value type and sizes around the buffer limits) run under random schedules and network "
         "delays (`harness/cosim.cpp`, `harness/s_core.cpp`). ")
REGION = ("Federates that can be interrupted are explored with two federates only and the wait-for-current-time flag not "
          "at all: beyond that HELICS itself fails (see known findings). ")

claim("C01", "at least one federate was granted a time beyond its start.", NOTE + REGION,
      COSIM + "Oracle: every grant is checked against the rules of the time model (grid, delta, earliest and latest "
      "allowed time, cause of an early grant); with disjoint time grids the reference model predicts every grant.")
claim("C02", "data travelled between federates.", NOTE + REGION,
      COSIM + "Oracle: global history; at each grant everything with an effective time before it has arrived, nothing "
      "with a later one is visible.")
claim("C03", "data travelled between federates.", NOTE + REGION,
      COSIM + "Oracle: a sequential reference simulation (`judgeExact`) computes all grants, values and messages; "
      "federates have disjoint time grids so that it is unique.")
claim("C04", "a value update was seen.", NOTE + REGION,
      COSIM + "Oracle: the value visible at each grant is the last one published before it, or one at exactly the "
      "granted time, never older than one seen before, and bit-identical; update flags match. `value_options` (`s_values.cpp`): "
      "inputs and publications with every combination of minimum change, minimum time gap, only-on-change, priorities, multi-input "
      "operations, closed publications and ignored interrupts; oracle: a reference model of these options run on the list of what was "
      "published.")
claim("C05", "a message was received.", NOTE + REGION,
      COSIM + "Oracle: conservation (each message exactly once, unchanged), not early, not late, FIFO per pair of "
      "endpoints and effective time.")

FED = ("Random federations (transport, broker tree, core sharing, delays, relative speed of all threads) ")
claim("C06", "messages went through filters.", NOTE,
      "`filters`: " + COSIM + "filters of every kind sit on sources and destinations, registered by federates and cores anywhere, several per "
      "endpoint. Oracle: for each message the arrivals (endpoint, times, changes in order, addresses) computed from the filters alone; each arrives exactly "
      "once, not early, not late. Not judged: a message that a destination filter sends on to an endpoint of another core may be one "
      "grant late (HELICS holds no time for it); filters end with the federate that owns them. `filters_one_core`: the same with one core.", runs=5000, quick_s=25)
claim("C08", "a whole federation was initialized.", NOTE,
      FED + "of 2-5 federates join at random moments, blocking or asynchronously, write values and send messages in "
      "initializing mode (`s_init.cpp`, `barriers`). Oracle: shared ghost state of who asked for which mode; values, "
      "update flags and messages on entry are computed from the script.")
claim("C09", "at least one iteration took place.", NOTE + "Iteration among federates in rings, and of time steps among "
      "more than two federates, fails in HELICS itself (known finding).",
      FED + "of federates that propagate the maximum of what they see (`s_init.cpp`). Oracle: least fixed point of the "
      "start values computed directly; each iteration must bring news; leaving with unseen data is a violation. Forced "
      "iterations: results, times and order of values. `init_ring` keeps the known finding in view.")
claim("C10", "a whole federation lived and ended.", NOTE,
      FED + "of 1-6 uninterruptible federates step, publish, send and leave at different times by five different ways "
      "(`s_life.cpp`, `whole_life`). Oracle: progress (no hang within the limits of simulated time, steps and messages "
      "at one instant), every broker and core gone at the end; values and messages as scripted. `long_life`: up to 1000 steps; "
      "`wrap_around`: 33500 steps, so that the sequence counters wrap.", quick_s=25)
claim("C11", "a federation of which some members leave early lived and ended.", NOTE + "Leaving before executing mode is "
      "explored with at most one level of sub-brokers.",
      "As C10, with federates that leave in every mode, also with an outstanding request (`leavers`, `leavers_init`). "
      "Oracle: the others' grants, values and messages are those of the script; late calls end at once.", quick_s=25)
claim("C12", "an error was raised in a running federation.", NOTE,
      "As C10; an error is raised at a seeded step by a federate, core or broker, or by a local error with errors declared "
      "fatal (`global_error`), or stays local (`local_error`). Oracle: bounded progress of everybody, no normal grant long "
      "after the error, all objects terminate; after a local error the others' grants are those of the script.", quick_s=25)
claim("C13", "a member was lost while the others were running.", NOTE + "Losses before the end of initialization are not "
      "covered: HELICS does not monitor connections before.",
      "As C10; a core, sub-broker or root broker is lost for good at a seeded moment: process crash (connections reset), "
      "machine crash or permanent partition (silence) (`s_fault.cpp`, `crash`). Oracle: every call of the survivors ends "
      "within the limit computed from tick, timeouts and error delay; all surviving objects terminate; grants, values and "
      "messages seen before the error are those of the script.", quick_s=25)
claim("C14", "messages were late or processes stalled.", NOTE,
      "As C10; processes (all threads of a core or broker) stall up to 22 s at seeded moments and the network delays "
      "messages, both below the timeouts (`s_fault.cpp`, `stalls`). Oracle: exactly the undisturbed results.", quick_s=25)
UNIT = "The sequence of operations, their arguments and the faults come from the seed. "
claim("C15", "a name was claimed by several federates.", NOTE + "Of filters with the same name on different cores HELICS "
      "accepts both, so filters take names of their own.",
      FED + "whose federates and publications, inputs, endpoints, targeted endpoints and filters, global and local, claim names from a small "
      "set at random moments (`s_names.cpp`: `federate_names`, `interface_names`). Oracle: the number of owners of each name, the reason given "
      "to the others, the list of federates at the root, and the values and messages of the owners in the run that follows.", runs=7000, quick_s=25)
claim("C16", "links were requested or names looked up.", NOTE,
      "`links`: " + COSIM + "publications, inputs, targeted and plain endpoints and filters are registered in random order while source, target, "
      "configuration, any core and any broker ask for links, also twice, by alias and by pattern. Oracle: the set of links asked for gives the exact "
      "values of every input, messages of every endpoint and filters each message passed. `missing`: some targets never appear; oracle: one "
      "warning in the log of who asked, none when optional, nobody executes when required. `unknown_names_model`: " + UNIT + "UnknownHandleManager "
      "against a model of maps of requests. Not tested: filter links by alias through a core or broker (not implemented in HELICS), translators.", runs=9000, quick_s=25)
claim("C17", "queries were answered while all members were there and initialized.", NOTE,
      "`answers`: " + COSIM + "federates and brokers ask each other 27 kinds of queries at random moments, in both modes, "
      "synchronously and asynchronously (with strings that die right after the call). Oracle: the generated federation itself "
      "(names, tags, links, members of each core) and a record of the grants; before initialization and after the first "
      "departure only promptness and form are judged. Federates that wait for each other's answers end by the timeout, which is accepted "
      "only while queries overlap.", runs=9000, quick_s=25)
claim("C18", "commands were delivered.", NOTE,
      "`commands`: " + COSIM + "federates, cores and brokers send plain, built-in and odd commands in both modes while all step; "
      "oracle: the list of commands sent. `terminate`: somebody tells a federate, a core or the federation to terminate, allowed or not; "
      "oracle: who has to end and who has to finish all steps.", runs=9000, quick_s=25)
claim("C19", "the federates were stopped by a barrier.", NOTE,
      "`barriers`: " + COSIM + "a controller sets, moves and clears barriers by API and commands, on the federation or single federates, with and without identifiers, before and "
      "after the (fast or slow) federates join. Oracle: no grant at or past a barrier in place during the whole request; everybody reaches the last step "
      "below it, and the end once all are cleared.", runs=8000, quick_s=25)
claim("C21", "a message was encoded.", NOTE,
      "`s_unit.cpp`: " + UNIT + "random messages go through all encodings (also as written by a machine of the other "
      "byte order, into reused objects, in streams cut at any byte, at the limits of the length fields); damaged bytes "
      "(truncated, corrupted, lost) are decoded at the end of a page followed by an unreadable one, so that any read "
      "outside the buffer is a crash.", runs=30000, quick_s=25)
claim("C23", "a federate followed the clock, or a limit was exceeded.", NOTE,
      "`s_rt.cpp` with the simulated clock: real-time federates with random lag, lead and tolerance among others that are slower or faster "
      "(`realtime`; oracle: every grant lies between lead and lag on the simulated clock, grids and values stay those of a consistent "
      "history), federates that wait for slow ones with a grant timeout set before or while executing (`grant_timeout`; the reports of each "
      "stage, their number and moment), runs around the maximum duration (`max_duration`).", runs=6000, quick_s=25)
claim("C28", "messages were read while others were pushed.", NOTE,
      "`log_buffer`: threads push, resize, read and clear under the seeded scheduler; oracle: per-thread order, bounds, "
      "integrity, no retained message lost.", runs=60000, quick_s=25)
claim("C29", "operations took place.", NOTE,
      "`buffer_model`: " + UNIT + "Several buffers against std::string models plus ownership; allocations fail at "
      "seeded points; every allocation is tracked (leaks, double frees).", runs=60000, quick_s=25)
claim("C31", "records were written.", NOTE,
      "`profile_file`: " + UNIT + "The file operations of the process are interposed: errors, short and interrupted "
      "writes at seeded points. Oracle: the exact content of every file, or, after reported failures, every record in "
      "order.", runs=60000, quick_s=25)
claim("C36", "values or messages crossed the C interface.", NOTE + "Not called: filters, translators, queries, commands, apps and callbacks of the C interface.",
      "`c_interface`: two to four federates made, configured and driven through the C interface alone (all federate kinds, "
      "local and global interfaces of every type, synchronous and asynchronous calls) in random deployments. Published "
      "values go in by typed calls and by data buffers and are read by typed calls, as raw bytes and through data buffers, with "
      "buffers of random size between guard bytes. Messages are sent in every way the interface offers, made, copied, "
      "cloned, kept and freed. Wrong and null handles and set errors are passed in between. Oracle: the published "
      "history (federates cannot be interrupted, so the value and the messages of each step are known), the sizes the "
      "documentation promises, the guards, and the kept contents of messages.", runs=4500, quick_s=25)
