#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as Python for readability): python3 tools/mkprops.py"""
import json, os
S = "sparta/sparta/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Scheduler fires every event exactly once, on its tick, in phase order",
     "Every event scheduled and not cancelled fires exactly once, at exactly the requested tick; within a tick events fire grouped by scheduling phase in phase order, events of equal precedence in the order in which they were scheduled, and time never goes backwards. A bounded run executes precisely the ticks of its bound (all of them and no later one), resumed runs continue where the previous one stopped, and simulation ends exactly when only non-continuing work is left or a stop was requested.",
     ["schedules", "histories"], "every history of schedule/cancel/reschedule/run(bound)/stop calls, from outside and from inside firing events, over all phases, delays and continuing/non-continuing mixes",
     "The scheduler tests drive one fixed event graph with a handful of delays; they cannot reach the combinations of near/far delays, mid-tick cancels, empty ticks, and partial runs.",
     [S + "kernel/Scheduler.hpp", "sparta/src/Scheduler.cpp", S + "events/Scheduleable.hpp"],
     [("tick-quantum list insertion and recycling", "Scheduler::scheduleEvent / TickQuantum"), ("main loop", "Scheduler::run"), ("cancellation", "Scheduler::cancelEvent")])
prop("C02", "Declared event precedence is honoured and precedence cycles are rejected",
     "If one event is declared to precede a different event of the same phase, directly, transitively, through a group or through a global ordering point, then whenever both fire in the same tick the first fires before the second, whatever order they were scheduled in. Declarations that form a cycle are rejected with an exception when the scheduler is finalized, and acyclic ones never are.",
     ["configurations", "schedules"], "every acyclic or cyclic precedence graph over events and ordering points, and every order of scheduling the events of a tick",
     "Tests use a few hand-made graphs with one scheduling order each.",
     [S + "events/Precedence.hpp", S + "kernel/DAG.hpp", "sparta/src/DAG.cpp", "sparta/src/Vertex.cpp", S + "events/GlobalOrderingPoint.hpp"],
     [("topological firing groups", "DAG::sort"), ("cycle detection", "DAG::detectCycle"), ("group assignment", "Scheduler::finalize")])
prop("C03", "Unique, single-cycle, payload, global and startup events keep their contracts",
     "A unique event fires at most once per tick however often it is scheduled for it, a single-cycle unique event at most once per cycle, and a payload event delivers each prepared payload exactly once, unmodified, in scheduling order, at its own tick. Cancelling a payload by handle, by value, by predicate or by relative cycle removes exactly the matching pending deliveries, status queries (scheduled?, how many in flight) agree with what will later fire, and every startup event fires exactly once before the first ordinary event.",
     ["histories", "inputs"], "all histories of schedule, prepare, cancel, cancel-if and query on all event kinds, clocks with any period, from outside and inside handlers",
     "Tests exercise one or two events of each kind with fixed delays; payload recycling, duplicates per cycle and cancel-then-reschedule need arbitrary histories.",
     [S + "events/PhasedPayloadEvent.hpp", S + "events/PhasedUniqueEvent.hpp", S + "events/PhasedSingleCycleUniqueEvent.hpp", S + "events/GlobalEvent.hpp", S + "events/StartupEvent.hpp"],
     [("unique filter", "Scheduleable::canSchedule / isScheduled"), ("payload proxy recycling", "PhasedPayloadEvent::allocateProxy / reclaim"), ("startup list", "Scheduler::scheduleStartupHandler_")])
prop("C04", "Clock conversions, edges and frequencies are exact across a clock tree",
     "For every clock in a tree of rational ratios whose exact periods fit 32 bits, after normalization its period is an exact integer number of ticks in the declared ratio to its parent, and cycle/tick conversions and positive-edge queries agree with that period for every tick. Elapsed cycles, the current cycle and events scheduled in cycles of any clock land on the ticks that arithmetic dictates, and frequency and period are consistent with the master clock.",
     ["configurations", "inputs"], "every clock tree shape, every ratio, every tick/cycle value",
     "Tests build one or two clock trees with small ratios.",
     [S + "simulation/Clock.hpp", "sparta/src/Clock.cpp", S + "simulation/ClockManager.hpp", S + "utils/Rational.hpp", S + "utils/MathUtils.hpp"],
     [("LCM normalization", "ClockManager::normalize"), ("conversions", "Clock::getTick / getCycle / isPosedge")])
prop("C05", "Asynchronous scheduling from other threads loses and duplicates nothing",
     "Events scheduled from threads other than the simulation thread are each executed exactly once, on the simulation thread, never before they were scheduled; those of one thread with equal delay and phase execute in the order in which they were scheduled, while the simulation is running or stepping. No data race exists between the scheduling threads and the running simulation.",
     ["schedules", "histories"], "all interleavings of one or more producer threads with the running scheduler",
     "One test with one thread and one interleaving; nothing checks for data races.",
     [S + "events/AsyncEvent.hpp", S + "kernel/Scheduler.hpp", "sparta/src/Scheduler.cpp"],
     [("asynchronous list with mutex and empty hint", "Scheduler::scheduleAsyncEvent / run")])
prop("C06", "Data and signal ports deliver every send exactly once, after exactly its delay",
     "Every value (or signal) sent on an out port reaches every bound in port's handler exactly once, unmodified, exactly the in-port delay plus the send delay later, scheduled deliveries of equal arrival in send order (signals due at one port in one cycle may coalesce into one); nothing is delivered that was not sent. Cancelling pending sends removes exactly the matching deliveries, and driven/receive queries and counts agree with the deliveries.",
     ["histories", "configurations"], "all bindings (fan-in, fan-out), delays, port orders, clocks and send/cancel histories",
     "Tests wire a fixed handful of ports with fixed delays.",
     [S + "ports/DataPort.hpp", S + "ports/SignalPort.hpp", S + "ports/Port.hpp", S + "ports/PortSet.hpp", S + "ports/Bus.hpp", S + "ports/ExportedPort.hpp"],
     [("payload delivery", "DataInPort::send_"), ("binding and precedence", "Port::bind"), ("cancel", "DataOutPort::cancel/cancelIf")])
prop("C07", "Synchronous ports cross clock domains on the right edge, in order, without loss",
     "Data sent through a synchronous port arrives exactly once, in order, at the destination clock's positive edge that the port delay and both clock periods dictate, for any pair of related clock frequencies. At most one item arrives per destination cycle, the readiness query tells precisely when a send is possible, and, between clocks of equal frequency, a receiver that is not ready delays items without losing or reordering them.",
     ["configurations", "histories"], "all clock ratio pairs, delays, send patterns and back-pressure patterns",
     "Tests cover a few frequency pairs.",
     [S + "ports/SyncPort.hpp"], [("arrival tick computation", "SyncInPort::computeSendToReceivePosedgeDelay_"), ("slide on not-ready", "SyncInPort::setReady_ / send_")])
prop("C08", "Sequential containers behave like their abstract model under every history",
     "The queue, buffer, circular buffer, array, front array and priority queue hold exactly the elements their specification says after every sequence of operations: contents, order, age order, sizes, free counts and validity all agree with an abstract model. Iterators and indices keep designating the element they designated until it is removed, and misuse is rejected with an exception instead of corrupting contents.",
     ["histories", "configurations"], "all capacities and all histories of insert, push, pop, erase, clear, iterate, invalidate and copy operations",
     "Unit tests run short scripted sequences at one or two capacities; index wrap-around and slot reuse combinations are not reached.",
     [S + "resources/Queue.hpp", S + "resources/Buffer.hpp", S + "resources/CircularBuffer.hpp", S + "resources/Array.hpp", S + "resources/FrontArray.hpp", S + "resources/PriorityQueue.hpp"],
     [("index translation", "Queue"), ("slot free list and validator", "Buffer"), ("age matrix/list", "Array")])
prop("C09", "Pipes, pipelines and shared data move every item at exactly the right cycle",
     "An item appended to a pipe or pipeline appears at each stage exactly the specified number of cycles later and leaves at the end, unmodified and exactly once, with the active handlers of every stage that holds an item after the update of a cycle invoked exactly once in that cycle, in their precedence order, and no others. Stalls hold exactly the stages they must, flushes remove exactly the flushed items, and shared data shows the written value from the next cycle on and the old one before.",
     ["histories", "configurations"], "all pipe lengths, append/invalidate/flush/stall histories and update modes",
     "Tests script a few cycles of a few pipelines.",
     [S + "resources/Pipe.hpp", S + "resources/Pipeline.hpp", S + "resources/SharedData.hpp"],
     [("self-updating advance", "Pipe::internalUpdate_"), ("stage handlers, stall and flush", "Pipeline")])
prop("C10", "Scoreboards report readiness exactly and notify each waiter exactly once",
     "A scoreboard's view reports a set of registers ready exactly when every one of them has been marked ready for that view's unit under the declared inter-unit latencies, and not earlier or later. Every registered ready callback fires exactly once, at the first update its view receives with which its whole set is ready, unless it was cleared before that, whatever the callbacks themselves do to the scoreboard.",
     ["histories", "configurations"], "all latency matrices, set/clear histories and callback registrations",
     "Tests use one latency table and a fixed script.",
     [S + "resources/Scoreboard.hpp", "sparta/src/Scoreboard.cpp"], [("per-view propagation", "Scoreboard::set / ScoreboardView"), ("ready callbacks", "ScoreboardView::registerReadyCallback")])
prop("C11", "Shared pointers, pools and node lists never leak, double-free or dangle",
     "Every object managed by the shared/weak pointers, their pooled allocators, the object allocator or the fast list is destroyed exactly once, exactly when its last owner goes away, and its storage is never handed out while still owned. Reference counts, expiry, pool occupancy, iteration order and element contents always match an abstract model, for copies, moves, conversions, self-assignment, resets and cyclic reuse.",
     ["histories"], "all histories of pointer, allocator and list operations",
     "Tests run without sanitizers and with short scripts.",
     [S + "utils/SpartaSharedPointer.hpp", S + "utils/SpartaSharedPointerAllocator.hpp", S + "utils/SpartaSharedPointerBaseAllocator.hpp", S + "utils/FastList.hpp", S + "kernel/ObjectAllocator.hpp"],
     [("intrusive reference block", "SpartaSharedPointer::RefCount"), ("watermarked pool", "SpartaSharedPointerAllocator"), ("free list", "FastList")])
prop("C12", "Numeric, bit and wrapper utilities compute what their names say",
     "For every input, the bit arrays, bit and math helpers (powers, logs, GCD/LCM, absolute values, masks, bit counts), byte-order and rational arithmetic, the tiered map, and the bounded, locked, valid and assign-once value wrappers agree with exact reference arithmetic, or reject the input with an exception; likewise the text helpers (stripping, splitting, hexadecimal and bit text, edit distance), interned strings, nested sequence tags, key/value pairs and deep copies of pointer vectors. No input makes them invoke undefined behaviour or read outside their storage.",
     ["inputs"], "all operand values, widths and texts",
     "Tests check a few dozen constants.",
     [S + "utils/BitArray.hpp", S + "utils/Bits.hpp", S + "utils/MathUtils.hpp", S + "utils/ByteOrder.hpp", S + "utils/Rational.hpp", S + "utils/BoundedValue.hpp", S + "utils/LockedValue.hpp", S + "utils/ValidValue.hpp", S + "utils/TieredMap.hpp", S + "utils/Utils.hpp", S + "utils/StringUtils.hpp", S + "utils/Tag.hpp", S + "utils/StringManager.hpp", S + "utils/KeyValue.hpp"],
     [("arithmetic", "MathUtils/Bits/Rational"), ("byte storage", "BitArray")])
prop("C13", "Simulated memory returns the last bytes written and rejects bad accesses",
     "A read or peek of any memory (raw architectural data, memory objects, memory maps, cached memory) returns exactly the most recent bytes written or poked there, or the initial fill, in the requested byte order, regardless of how accesses straddle lines, blocks or mappings. Accesses that are out of range, unaligned or unmapped raise the documented error or return failure and change nothing, and post-access notifications describe exactly the access performed.",
     ["histories", "inputs"], "all access histories, sizes, alignments, byte orders, layouts and mappings",
     "Tests do a few dozen accesses to fixed layouts.",
     [S + "functional/ArchData.hpp", S + "functional/ArchDataSegment.hpp", S + "functional/DataView.hpp", S + "memory/MemoryObject.hpp", S + "memory/SimpleMemoryMap.hpp", S + "memory/BlockingMemoryIF.hpp", S + "memory/CachedMemory.hpp"],
     [("lazily allocated lines", "ArchData::Line / getLine"), ("access splitting by block", "BlockingMemoryIF"), ("binary mapping search", "SimpleMemoryMap::findMapping")])
prop("C14", "Registers, fields, masks and banks hold exactly what was written",
     "Reading a register, bit field, sub-register or byte view returns exactly what the last writes, masked by write masks and field positions, put there; writes never touch bits or registers outside their target and read-only bits keep their value. Lookup by name, group and bank returns the same storage, and each read or write notifies its observers exactly once with the true prior and final values.",
     ["histories", "configurations"], "all register definitions, access sizes, offsets, banks and histories",
     "Tests use one fixed register table.",
     [S + "functional/Register.hpp", S + "functional/RegisterSet.hpp", S + "functional/RegisterBits.hpp", S + "functional/RegisterBankTable.hpp"],
     [("layout and subset registers", "RegisterSet / ArchData::layout"), ("masked write", "RegisterBase::write_ / RegisterBits"), ("notifications", "RegisterBase notifications")])
prop("C15", "Checkpoints restore exactly the state that was saved",
     "Loading any existing checkpoint, in any order, restores every register and every byte of memory to precisely its value when the checkpoint was taken, and the tick of the scheduler to the tick of the checkpoint; restoring a checkpoint stored to a stream or file restores every register and byte of memory likewise. Creating, loading, deleting, storing and restoring checkpoints in any order never disturbs the running state (other than by the load itself) nor changes what another existing checkpoint restores to; a deleted checkpoint can no longer be found, loaded or deleted, the head cannot be deleted, and identifiers, chains and listings remain consistent with the history.",
     ["histories", "crash_points"], "all histories of create, load, delete, modify and branch operations",
     "Tests follow one or two scripted checkpoint trees.",
     [S + "serialization/checkpoint/FastCheckpointer.hpp", S + "serialization/checkpoint/DeltaCheckpoint.hpp", S + "serialization/checkpoint/PersistentFastCheckpointer.hpp", S + "functional/ArchData.hpp"],
     [("delta/snapshot chains", "FastCheckpointer::createCheckpoint_ / load_ / cleanupChain_"), ("dirty lines", "ArchData::save/saveAll/restore")])
prop("C16", "Device-tree names, groups, tags and wildcard searches resolve exactly",
     "Every node of a device tree is found by its location, relative path, alias or group index, and by no other spelling; lookups with wildcard patterns return exactly the nodes whose names match, each once, and report the matched text. Names that are invalid or that collide with a sibling are rejected and leave the tree unchanged, and building, finalizing and tearing trees down in any order is free of memory errors.",
     ["configurations", "inputs"], "all tree shapes, names, aliases, groups and patterns",
     "Tests use one fixed tree and a fixed pattern list.",
     [S + "simulation/TreeNode.hpp", "sparta/src/TreeNode.cpp"], [("name validation and child index", "TreeNode::addChildNode / validateName"), ("pattern search", "TreeNode::findChildren / createSearchRegex")])
prop("C17", "Parameters accept, store, print and validate exactly the assigned values",
     "A parameter of any supported type (integers, floats, booleans, strings, nested vectors) assigned from any accepted text or value holds exactly that value, prints a text that reads back to the same value, and keeps its default, read count and lock state correct. Text that does not denote a value of the type, or a value out of the type's range, is rejected with an exception without changing the parameter, and validation reports exactly the violated dependencies.",
     ["inputs", "histories"], "all strings and values for every parameter type",
     "Tests try a few values of each type.",
     [S + "simulation/Parameter.hpp", "sparta/src/Parameter.cpp", S + "simulation/ParameterSet.hpp", S + "utils/SmartLexicalCast.hpp", S + "utils/LexicalCast.hpp"],
     [("smart lexical cast", "utils::smartLexicalCast"), ("assignment", "Parameter::addStringValue / assignValueFromStringVector")])
prop("C18", "Configuration sources combine with the documented precedence, losing nothing",
     "For every set of parameter assignments from the command line and configuration files, with paths that may contain wildcards and optional or required marks, each parameter ends up with the value of the last matching assignment by documented priority, and every required assignment that matched nothing is reported. A configuration written out from a tree and read back gives every parameter the same value. Features and their options have the value last given on the command line or in an option file, and the caller's default otherwise.",
     ["configurations", "inputs", "histories"], "all sets and orders of assignments, patterns and YAML nestings",
     "Tests use a few fixed files.",
     [S + "simulation/ParameterTree.hpp", S + "parsers/ConfigParserYAML.hpp", "sparta/src/ConfigParserYAML.cpp", S + "parsers/ConfigEmitterYAML.hpp", S + "app/SimulationConfiguration.hpp", S + "app/FeatureConfiguration.hpp"],
     [("virtual parameter tree", "ParameterTree::set / create"), ("YAML event consumer", "ConfigParserYAML"), ("emitter", "ConfigEmitterYAML")])
prop("C19", "A tree filter selects exactly the nodes its expression describes",
     "A tree filter expression evaluates on every node to what its text means: comparisons of visibility, instrumentation type, tags and name (literal or by full regular-expression match) combined by not, and, or, exclusive or and parentheses with their documented precedence, in any spelling, case and spacing the language allows. Comparisons of visibility and type are false on nodes that carry no instrumentation. Expressions built or combined in code mean the same as the written ones; combining, copying, moving or keeping one leaves all others unchanged, and a parser is unaffected by the texts it rejected before.",
     ["inputs", "configurations"], "all filter expressions of the grammar, all their spellings, all nodes, and all histories of composing and copying expressions",
     "The test evaluates a few fixed filters on one tree; nesting, precedence, quoting, literal texts with special characters and the spellings of each name are not combined.",
     ["sparta/src/TreeFilterExpression.cpp", "sparta/src/TreeFilterExpressionGrammar.cpp", S + "tree/filter/Expression.hpp", S + "tree/filter/Grammar.hpp", S + "tree/filter/Parser.hpp"],
     [("evaluation", "Expression::valid / evaluateVisibility_ / evaluateTag_"), ("precedence and names", "Grammar"), ("composition", "Expression::operator&= / |= / ^= / !")])
prop("C20", "Notifications reach exactly the registered observers, exactly once, in order",
     "A posted notification is delivered exactly once to every observer registered for it at that moment, on the posting node or, where registered at an ancestor, for its whole subtree, including nodes added after registration, and to nobody else. Deregistration stops delivery at once, registering twice or deregistering the unknown is rejected, and the tree's answer to whether anyone observes is always exact.",
     ["histories", "configurations"], "all tree shapes and histories of register, deregister, add node and post",
     "Tests register a handful of observers on one tree.",
     [S + "simulation/TreeNode.hpp", S + "log/NotificationSource.hpp", "sparta/src/TreeNode.cpp"],
     [("observer propagation", "TreeNode::registerForNotification / propagateNotification"), ("observation cache", "NotificationSource")])
prop("C21", "Log messages reach exactly the matching taps and destinations",
     "Each log message is written exactly once to every destination that has at least one attached tap whose node is the source or an ancestor and whose category pattern matches, and to no other destination, with its text, origin and category intact. Attaching, detaching or destroying taps takes effect for the very next message, and a message source's enabled state is exact.",
     ["histories", "configurations"], "all tree shapes, category patterns, destination sharing and attach/detach histories",
     "Tests check one fixed set-up against a golden file.",
     [S + "log/Tap.hpp", S + "log/Destination.hpp", S + "log/MessageSource.hpp", "sparta/src/Tap.cpp", "sparta/src/Destination.cpp"],
     [("destination duplicate filter", "Destination::write"), ("file destination sharing", "DestinationManager")])
prop("C22", "Counters and histograms conserve every recorded event and sample",
     "Counters equal the sum of their increments, cycle counters the elapsed cycles while counting, and integral cycle measures the exact integral over time; read-only counters mirror their source. Every histogram sample lands in exactly one bin, the one covering its value, bins plus under- and overflow always sum to the total, and aggregates and statistics derived from them agree exactly.",
     ["histories", "inputs"], "all sample values, bin layouts, increment and start/stop histories",
     "Tests insert a few fixed samples.",
     [S + "statistics/Counter.hpp", S + "statistics/CycleCounter.hpp", S + "statistics/Histogram.hpp", S + "statistics/BasicHistogram.hpp", S + "statistics/CycleHistogram.hpp", S + "statistics/EnumHistogram.hpp", S + "statistics/ContextCounter.hpp", S + "statistics/WeightedContextCounter.hpp"],
     [("binning", "HistogramBase::addValue"), ("cycle integration", "CycleHistogramBase"), ("context sums", "ContextCounter")])
prop("C23", "Statistic expressions evaluate to their mathematical value",
     "Every well-formed statistic expression over constants, counters, statistics and functions evaluates to the value the grammar's precedence (a sign binds tightest, then right-associative **, then * and /, then + and -) and the functions' definitions give, and keeps doing so as its inputs change; its printed form shows the operations in evaluation order. Statistic instances report the change since their window start with the declared visibility and timing, and malformed or cyclic expressions are rejected with an exception.",
     ["inputs", "histories"], "all expressions and all counter histories and windows",
     "Tests evaluate a few dozen fixed expressions.",
     [S + "statistics/Expression.hpp", S + "statistics/ExpressionGrammar.hpp", "sparta/src/ExpressionGrammar.cpp", S + "statistics/StatisticInstance.hpp", "sparta/src/StatisticInstance.cpp"],
     [("expression grammar", "ExpressionParser"), ("evaluation", "Expression::evaluate"), ("windows", "StatisticInstance::start/end/getValue")])
prop("C24", "Reports show the true statistics of their window, identically in every format",
     "A report contains exactly the statistics its definition selects, under the requested names, each with the value it had over the report's window, for any start/stop times, nested sub-reports, auto-expansion filters and update points. The text, CSV, JSON, HTML, Python and gnuplot renderings are all well formed and carry the same statistics with the same values, one row per update in row-oriented formats.",
     ["configurations", "histories"], "all report definitions, windows and value histories, including NaN, infinite and very large values",
     "Tests compare a few fixed reports to golden files.",
     [S + "report/Report.hpp", "sparta/src/Report.cpp", S + "report/format"], [("definition parser", "ReportFileParserYAML"), ("formatters", "report::format::*")])
prop("C25", "Triggers fire exactly once, exactly when their condition first holds",
     "Time and cycle triggers invoke their callback exactly once, at the tick they are set for; counter and statistic triggers once, after their condition first holds and within a cycle of their clock, never before; windowed triggers start, repeat and stop their objects in turn at the ticks configured, and recurring triggers fire once per period. A composite expression fires when the and/or combination of its terms first becomes true (each term counting from when it first held), a toggle alternates between enabled and disabled, and deactivated or destroyed triggers never fire.",
     ["histories", "configurations"], "all thresholds, alignments, clocks, counter increment patterns, and/or compositions and re-arm histories",
     "Tests use fixed thresholds with counters advancing by one.",
     [S + "trigger/Trigger.hpp", S + "trigger/SingleTrigger.hpp", S + "trigger/ExpressionTrigger.hpp", "sparta/src/ExpressionTrigger.cpp", S + "trigger/ContextCounterTrigger.hpp"],
     [("cycle and time triggers", "trigger::CycleTrigger / TimeTrigger"), ("counter trigger", "trigger::CounterTrigger"), ("expression", "trigger::ExpressionTrigger")])
prop("C26", "Pipeline collection records exactly the collected history",
     "For every collected object the recorded transactions reproduce exactly its value over time: each value change yields one record with the right object, start and end times and text, without gaps, overlaps or losses at heartbeat boundaries, from the moment collection starts to the moment it stops. Reading a database back through the transaction reader over any time range yields every transaction of that range, once and unchanged, and the index, map and location files agree with the records.",
     ["histories", "configurations"], "all value histories, heartbeat intervals, start/stop times and query ranges",
     "Tests collect a short fixed run and compare sizes or golden files.",
     [S + "collection/Collectable.hpp", S + "collection/IterableCollector.hpp", S + "collection/PipelineCollector.hpp", S + "pipeViewer/Outputter.hpp", "sparta/src/ArgosOutputter.cpp", "helios/pipeViewer/pipe_view/transactiondb/src/Reader.hpp"],
     [("transaction open/close", "Collectable::collect / closeRecord"), ("heartbeat split", "PipelineCollector::performHeartBeat_"), ("record writer and index", "Outputter"), ("reader", "sparta::pipeViewer::Reader")])
prop("C27", "Simulation is deterministic and observation does not disturb it",
     "Running the same model with the same configuration and inputs twice executes the same events at the same ticks in the same order and ends with the same statistics and final state. Enabling reports, logging, pipeline collection, triggers or checkpoint snapshots changes none of that.",
     ["configurations", "programs"], "all model configurations and all combinations of observation features",
     "Tests compare single runs to golden output, with one observation set-up each.",
     ["sparta/example/CoreModel/src", "sparta/src/Simulation.cpp", "sparta/src/CommandLineSimulator.cpp", S + "kernel/Scheduler.hpp"],
     [("event order within a group", "Scheduler"), ("observation hooks", "Simulation / PipelineCollector / Report")])
prop("C28", "Cache and replacement models agree with a reference cache",
     "For every access sequence and geometry the cache model hits exactly on the lines a reference cache of the same geometry and replacement policy holds, finds and fills the right set and way, and reports the right victim. The true-LRU and tree pseudo-LRU policies, tracking, touch, invalidate, and lock operations order ways exactly as their definitions say, and a line is never present twice.",
     ["histories", "configurations"], "all geometries and access/fill/invalidate histories",
     "Tests use one geometry with a short access list.",
     ["sparta/cache/cache", "sparta/cache/cache/SimpleCache2.hpp", "sparta/cache/cache/LRUReplacement.hpp", "sparta/cache/cache/TreePLRUReplacement.hpp"],
     [("address decode", "cache::DefaultAddrDecoder"), ("replacement", "cache::LRUReplacement / TreePLRUReplacement"), ("set lookup", "cache::BasicCacheSet")])
prop("C29", "An extension has exactly the parameters configured for its node, and exists once",
     "Whatever configuration files, trees, wildcard paths and concrete paths are given, an extension created for a tree node has the parameters its class declares plus those configured for that node, each with the last value configured (concrete paths before wildcard ones), read back in every supported type. At any point of a history of creating, getting, adding, replacing and removing, each node lists exactly the extensions it has; getting gives the same object until it is replaced or removed; configured extensions that were never created are reported unless optional; and the written final configuration configures another tree alike.",
     ["inputs", "configurations", "histories"], "all combinations of wildcard and concrete configuration, all nodes, extension classes, and orders of operations before and after finalization",
     "The test runs a few fixed configuration files with one pattern each and one order of creation.",
     ["sparta/src/TreeNodeExtensionManager.cpp", S + "extensions/TreeNodeExtensionManager.hpp", "sparta/src/TreeNode.cpp"],
     [("configured parameters", "TreeNodeExtensionManager::createExtension"), ("names", "getAllConfigExtensionNames / getAllInstantiatedExtensionNames"), ("unread", "checkAllYamlExtensionsCreated"), ("final configuration", "getFinalConfigPTree"), ("typed values", "TreeNode::ExtensionsBase::getParameterValueAs")])
prop("C30", "States, their residence tracking and state timers are exact",
     "A State object has exactly the value last told to it, directly or by its markers once enough of them are marked, and schedules each observer of a value exactly once when that value is next set; markers count exactly the marks in place, and an attached monitor decides instead of the threshold. With tracking on, the ticks accounted for each value are exactly those spent in it, over every kind of transition, and the totals written out are those of all states of that type. A state timer accounts the cycles between start and end of each state exactly once in the histogram of that state, at queries and on release, and recycled timers carry nothing over from a previous user.",
     ["histories"], "all transition histories and timer start/stop/release histories",
     "Tests script a few transitions.",
     [S + "simulation/State.hpp", S + "simulation/StateTracker.hpp", S + "simulation/StateTimerUnit.hpp"],
     [("transition", "State::setValue"), ("residence accounting", "tracker::StateTrackerUnit"), ("timer", "StateTimerUnit")])
prop("C31", "No malformed input crashes, hangs or corrupts the framework",
     "Any text given as a parameter value, configuration file, report definition, statistic expression, tree filter, trigger expression, node pattern or checkpoint stream is either accepted or rejected with an exception derived from the standard exception type. It never crashes the process, loops forever, leaks across a retry or leaves the tree in a state in which correct later input is mishandled.",
     ["inputs", "fault_sequences"], "all byte strings given to every textual or binary input",
     "Tests feed a few hand-written malformed inputs, without sanitizers.",
     ["sparta/src/ConfigParserYAML.cpp", "sparta/src/ExpressionGrammar.cpp", "sparta/src/TreeFilterExpressionGrammar.cpp", "sparta/src/Report.cpp", S + "utils/SmartLexicalCast.hpp"],
     [("YAML event handlers", "YAMLTreeEventHandler"), ("spirit grammars", "ExpressionGrammar"), ("lexical casts", "smartLexicalCast")])
prop("C32", "Each selected performance event is logged once, with its attributes and cycle",
     "Once collection of performance events is started, every object collected by a collector is written as one line, in order, to exactly the files whose selection (event type in any case or all, verbosity, location or pattern of locations) covers that collector, and to none before the start. A line has the event's name, each attribute of the collected object in its declared format (also through nested and derived objects, and positional arguments) and none of another object, and the cycle of the collector's clock with its skew. Selections that cover no event are rejected, others are not. Hand-formatted events render each attribute as formatted.",
     ["histories", "configurations", "inputs"], "all collectors, selections, starts, objects and histories of collecting",
     "The tests write a few events to files that nobody reads back.",
     [S + "pevents/PeventCollector.hpp", S + "pevents/NestedPeventCollector.hpp", S + "pevents/PeventController.hpp", S + "pevents/PEventHelper.hpp", S + "pevents/PeventTrigger.hpp", S + "pairs/SpartaKeyPairs.hpp"],
     [("selection", "PeventCollector::addTap, PeventCollectorController::finalize"), ("line", "generateCollectionString_"), ("attributes", "PairCache::getPEventLogVector, KeyPairFromEntity::populateFromEntityUtility_"), ("formatting", "PEvent::fireEvent")])
prop("C33", "Reports of a run cover exactly the windows and updates of their triggers",
     "A report requested on the command line or by a report descriptor, for any pattern of tree locations, is written for every matching node. Its statistics are those of the window that begins when its start condition first holds (counter, notification, and/or combination, reference to another report's tag; the beginning of the run without one) and ends when its stop condition first holds or the run ends. A row-oriented report has a row ending at exactly every point its update trigger (cycles of a clock, time, multiples of a counter, notifications) names, plus one at the end, each covering the time since the previous row, or since the start in the cumulative format. Each subreport with triggers of its own covers its own window.",
     ["configurations", "histories"], "all descriptors, triggers, clocks and histories of the counters",
     "The tests compare a few example runs with golden files.",
     ["sparta/src/ReportRepository.cpp", "sparta/src/ReportDescriptor.cpp", "sparta/src/Report.cpp", "sparta/src/ExpressionTrigger.cpp", "sparta/src/Simulation.cpp"],
     [("report windows", "Directory::startReports_, stopReports_"), ("updates", "Directory::updateReports_, legacyUpdate_, configureUpdateTrigger_"), ("rows", "ReportDescriptor::updateOutput, writeOutput, teardown"), ("subreport triggers", "Report::handleParsedTrigger")])
prop("C34", "Every node and resource goes through its life exactly once and in order",
     "For every device tree, the factory, node and resource hooks of building, configuring, finalization (construction of the resource, with the parameters configured for it and the clock of its nearest ancestor that has one), early and late binding, validation, the end of the run, debug dump and teardown are each invoked exactly once per node or resource, parents before children and children in order of their addition, also for resources finalized early by another and for nodes created during finalization. An error in any step is reported to the caller and stops that phase (in the debug dump and in teardown it is contained); whatever failed, everything that was created is torn down and destroyed exactly once. A node gives out its resource exactly while it has one, with its type. Steps in the wrong phase are refused. A debug dump has, for every resource, exactly what it wrote, and the error.",
     ["configurations", "faults", "histories"], "all trees, all points of failure and all orders of destruction",
     "The tests build a few fixed trees and never fail in the middle of a phase.",
     ["sparta/src/TreeNode.cpp", "sparta/sparta/simulation/ResourceTreeNode.hpp", "sparta/sparta/simulation/DynamicResourceTreeNode.hpp", "sparta/sparta/simulation/ResourceContainer.hpp", "sparta/sparta/simulation/RootTreeNode.hpp", "sparta/src/Resource.cpp", "sparta/src/Simulation.cpp"],
     [("phases", "TreeNode::enterConfig_, finalizeTree_, bindTreeEarly_, bindTreeLate_, validateTree_, enterTeardown_"), ("resources", "ResourceTreeNode::createResource_, DynamicResourceTreeNode::createResource_, ResourceContainer::getResourceAs"), ("run", "Simulation::run, dumpDebugContentIfAllowed")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
