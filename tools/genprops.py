#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run to regenerate it).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Switching partitionings preserves every value",
 "For any 1D/2D/3D index space, any process group and any sequence of switches between partitionings with data flow 'preserve' and no reduction, every process finds at every index it owns after a switch, and which exactly one process owned before (or which all processes held identical copies of), exactly the value most recently written for that index before the switch. This holds for every element type, default and user-provided memory layouts, multiple ranges and mappings per process, and every communication option of the backend.",
 ["inputs", "histories", "configurations"],
 "all spaces (also with negative/offset borders), group sizes, partitioners incl. user-defined range lists with tags/merging/single-index flags, element types, switch sequences, MPI options",
 "The tests run fixed example applications with fixed sizes and 1-4 processes and compare one output; index-exact data movement for arbitrary partition pairs is never compared with a model.",
 ["src/data.c", "src/space.c", "src/action.c", "src/layout_lex.c", "src/layout.c", "src/backend-mpi.c", "src/rangelist.c"],
 [("transition calculation", "src/space.c do_calc_transition"), ("switch execution", "src/data.c laik_switchto_partitioning"), ("pack/unpack", "src/layout_lex.c")],
 observe=["container memory through laik_get_map_1d/2d/3d after laik_switchto_partitioning"])

prop("C02", "Reductions combine every contribution exactly once",
 "When switching with a reduction (sum, product, min, max, bitwise and/or) between any pair of partitionings of a 1D space, every process that owns an index afterwards gets the reduction over the values of exactly all processes that owned it before, each contribution used once, for each supported element type. The result does not depend on whether the backend uses collective operations or its own message exchange, prepared or direct execution, nor on which processes contribute or receive.",
 ["inputs", "configurations", "schedules"],
 "all 1D partitionings with arbitrary overlap, 8 element types, 6 operations, group sizes, contributor/receiver sets, MPI reduce/async options",
 "The tests reduce with sum over doubles on All partitionings of fixed size; subgroup reductions and other operations/types are not compared with a model.",
 ["src/space.c", "src/action.c", "src/type.c", "src/backend-mpi.c", "src/data.c"],
 [("reduction regions", "src/space.c calcAddReductions"), ("splitReduce/allReduce passes", "src/action.c"), ("element-wise reduce", "src/type.c")],
 observe=["container memory after a reducing switch"])

prop("C03", "Init flow yields the neutral element; aggregation is exact",
 "After switching with data flow 'init' for a reduction, every index owned by a process holds the neutral element of that reduction for the element type, and indexes both initialised and later reduced without being written do not influence the result. A switch with no data flow transfers nothing and requires nothing from other processes.",
 ["inputs", "histories", "configurations"],
 "all 1D partitionings, types and operations, interleavings of init / partial writes / reducing switches",
 "Only sum with doubles/ints is initialised anywhere in the tests.",
 ["src/space.c", "src/data.c", "src/type.c", "src/action.c"],
 [("init operations of a transition", "src/space.c"), ("neutral elements", "src/type.c *_init"), ("initMaps", "src/data.c")],
 observe=["container memory after laik_switchto_partitioning/laik_switchto_flow with LAIK_DF_Init"])

prop("C04", "Independently computed communication plans agree",
 "The communication plans which all processes compute independently for the same switch always fit together: each planned send has exactly one matching receive of the same index range at the peer and vice versa, and all processes agree on every reduction and its contributor/receiver sets. For each process, kept, received, reduced and initialised ranges cover each index of its target partition at most once (exactly once if somebody owned it before), nothing outside it, and an index already held locally is never sent to its holder without reduction.",
 ["inputs", "programs"],
 "all pairs of partitionings incl. overlapping ones and different groups (parent/child), flows and reductions",
 "Tests compare logged transitions for a few fixed partitionings of single processes; agreement across processes over all pairs is not examined.",
 ["src/space.c", "src/rangelist.c", "src/partitioning.c"],
 [("transition calculation", "src/space.c do_calc_transition")],
 state=[("Laik_Transition", "local/init/send/recv/reduce operation lists", "include/laik/space-internal.h")],
 observe=["the transition object of each process"])

prop("C05", "Data exchange never deadlocks or leaves messages behind",
 "For any switch, direct or prepared, execution completes on all processes under every message timing and buffering behaviour MPI permits (including fully synchronous sends), every message sent is received with exactly the announced element count and type, and no send buffer is modified or receive buffer read while the operation is pending. Collective operations are called by all members of the group in the same order with the same arguments.",
 ["schedules", "inputs", "configurations"],
 "all schedules and send-buffering policies allowed by the MPI standard, all partition pairs and backend options",
 "Tests run on one machine with eager small messages: rendezvous-only behaviour and adversarial completion order never occur.",
 ["src/action.c", "src/backend-mpi.c"],
 [("deadlock-avoiding order", "src/action.c laik_aseq_sort_2phases"), ("async send/recv transformation", "src/backend-mpi.c laik_mpi_asyncSendRecv")],
 observe=["MPI calls issued by each process (simulated MPI)"])

prop("C06", "Recorded transitions and action sequences equal direct switching",
 "Executing a precomputed transition or a recorded action sequence has exactly the effect of the corresponding direct switch, however often it is repeated, with mappings known at recording time or not, and independent of the backend-independent transformation passes applied to the sequence. Reusing one sequence for many alternating iterations always uses the then-current container values.",
 ["programs", "histories", "configurations"],
 "all partition pairs, iteration counts, reservations given or not, sequences of optimisation passes",
 "Tests execute few recorded sequences (jac1d/vsum variants) with one fixed pass pipeline.",
 ["src/data.c", "src/action.c", "src/backend-mpi.c"],
 [("recording", "src/data.c laik_calc_actions/laik_exec_actions"), ("passes", "src/action.c")],
 observe=["container memory after laik_exec_transition / laik_exec_actions"])

prop("C07", "Reservations are transparent and provide the memory",
 "Using a reservation never changes values seen by the application: any history of switches among reserved (and unreserved) partitionings has the same result with and without it. Switching among partitionings covered by the reservation allocates no further element memory, mappings with the same tag reuse the same memory, and freeing the reservation releases all of it.",
 ["histories", "inputs"],
 "all sets of partitionings registered, tag assignments, switch histories incl. changing reservations",
 "Tests use reservations in a few fixed applications and never observe aliasing, counts of allocations or frees.",
 ["src/data.c"],
 [("reservation allocation and matching", "src/data.c laik_reservation_alloc / prepareMaps")],
 observe=["container memory, allocator callbacks, container statistics"])

prop("C08", "Layouts place each index once; pack/unpack/copy are exact",
 "A memory layout for any set of ranges assigns each covered index of a mapping a distinct in-bounds offset, consistent with its published strides. Packing a range in arbitrarily small chunks and unpacking it into any other mapping, and copying between mappings (specialised and generic variants), transfers exactly the elements of that range in index order and touches nothing else.",
 ["inputs"],
 "all 1D-3D range sets with one or more mappings, chunk sizes, element sizes, layout implementations",
 "Tests have a handful of layout cases printed by fixed programs; partial packing at chunk borders is not sampled.",
 ["src/layout.c", "src/layout_lex.c", "src/data.c"],
 [("lexicographical layout", "src/layout_lex.c"), ("generic layout functions", "src/layout.c")],
 observe=["laik_offset, pack/unpack/copy callbacks of a layout"])

prop("C09", "Index translation and element addresses are consistent",
 "For every locally mapped index, translation from global to local index and back is the identity, indexes outside of all local mappings are reported as not local, and the address obtained through any access function (1D/2D/3D base pointer with strides, address of an index, layout offset) designates the same element. Different owned indexes have different addresses.",
 ["inputs", "histories"],
 "all partitionings (multiple ranges, mappings, tags, dimensions), with and without reservations",
 "Tests access only densely mapped partitions through one access path.",
 ["src/data.c", "src/partitioning.c", "src/layout_lex.c"],
 [("index translation", "src/data.c laik_global2local_1d and related"), ("map accessors", "src/data.c laik_get_map_*")],
 observe=["laik_get_map_1d/2d/3d, laik_get_map_addr, laik_global2local_*, laik_local2global_*"])

prop("C10", "Container memory is disjoint, bounded and returned",
 "At any time the live mappings of all containers occupy disjoint memory of sufficient size; memory handed over by the application for a switch is used for it, and like memory obtained from the container's allocator only within its bounds; and each block obtained from an allocator is returned to it exactly once by the time the container is freed. Container statistics on currently allocated bytes always match the allocator calls.",
 ["histories", "inputs"],
 "all histories of creating, switching, reserving, providing memory and freeing containers",
 "Tests do not observe the allocator; leaks, double frees or overlaps only show if they crash.",
 ["src/data.c"],
 [("allocateMap/freeMap", "src/data.c"), ("allocator interface", "include/laik/data.h")],
 observe=["allocator callbacks, AddressSanitizer, laik_data statistics"])

prop("C11", "Range algebra is set algebra",
 "Ranges behave as sets of indexes: intersection, containment, expansion (bounding box), emptiness, equality and size agree with the enumerated index sets for all 1D-3D ranges, also with negative and very large borders and empty ranges. Spaces report the size, dimensions and range they were created with or changed to.",
 ["inputs"],
 "all pairs of non-inverted ranges up to 64-bit borders",
 "Tests contain no direct check of range operations.",
 ["src/space.c"], [("range operations", "src/space.c laik_range_*")],
 observe=["return values of laik_range_* and laik_space_*"])

prop("C12", "Block partitioner covers, orders and balances",
 "For every space, group size, index weights, process weights and cycle count, the block partitioner assigns every index of the space to exactly one process, in contiguous blocks of the distributed dimension ordered by process within each cycle, identically on all processes. Block weights follow the requested proportions up to one index of weight (plus rounding), so equal weights differ by at most one index per cycle.",
 ["inputs", "configurations"],
 "all sizes (also smaller than group), dims, partitioned dimension, weight functions, cycles",
 "Tests print block borders for few sizes and weights.",
 ["src/partitioner.c"], [("block partitioner", "src/partitioner.c runBlockPartitioner")],
 observe=["ranges of the resulting partitioning"])

prop("C13", "Bisection, grid, all and master partitioners tile the space",
 "The bisection and grid partitioners assign every index of a 1D-3D (grid: 3D) space to exactly one process with rectangular blocks of near-equal size whenever the space has enough indexes; 'all' gives each process the full space and 'master' gives it to process 0 only. Results are identical on all processes.",
 ["inputs", "configurations"],
 "all space sizes and borders, group sizes, grid shapes",
 "Tests use few sizes; rounding at block borders depends on sizes not sampled.",
 ["src/partitioner.c"], [("built-in partitioners", "src/partitioner.c")],
 observe=["ranges of the resulting partitioning"])

prop("C14", "Derived partitioners extend their base exactly",
 "For any base partitioning, the halo and corner-halo partitioners give each process its base ranges plus exactly all indexes within the given depth (along the axes, resp. in any direction) clipped to the space, and the copy partitioner gives each process the base borders of the source dimension applied to the target dimension with full extent otherwise.",
 ["inputs", "configurations"],
 "all base partitionings (1D-3D), depths from 0 to beyond the block size, border positions",
 "Tests use depth 1-2 halos on regular blocks well inside the space.",
 ["src/partitioner.c"], [("halo/cornerhalo/copy partitioners", "src/partitioner.c")],
 observe=["ranges of the resulting partitioning"])

prop("C15", "Partitionings keep exactly the ranges given, in normal form",
 "For any ranges a partitioner appends, in any order, with any tags and flags, the partitioning contains exactly these (merged, if merging is requested, into the same index sets per process and mapping), sorted by process and mapping, with mapping numbers given by tags; all accessors (counts, n-th range, own ranges, ranges of a mapping) are consistent. The predicates hold exactly if their definition does: every index is owned (covers space), each process has one range with the full space, exactly one process has one range with the full space, and equality of the ranges.",
 ["inputs"],
 "all range lists (1D-3D, overlapping, empty processes, single-index), tag assignments and flags",
 "Tests go through partitioners producing already ordered, disjoint ranges.",
 ["src/rangelist.c", "src/partitioning.c"],
 [("freeze: sort, merge, map offsets", "src/rangelist.c laik_rangelist_freeze"), ("coverage check", "src/rangelist.c laik_rangelist_coversSpace")],
 observe=["laik_rangelist_*, laik_partitioning_*, laik_my_*"])

prop("C16", "Filtered partitioner runs equal filtering the full run",
 "A partitioner run that keeps only the own ranges, or only ranges intersecting own ranges of up to two partitionings, yields exactly the matching subset of the unfiltered run, for all partitioners. Switches computed from filtered partitionings have the same effect as from complete ones.",
 ["inputs", "configurations"],
 "all partitioners, range lists and combinations of filters",
 "No test compares filtered with unfiltered runs; intersect filters are hardly used.",
 ["src/partitioning.c", "src/rangelist.c"],
 [("range filters", "src/rangelist.c / src/partitioning.c laik_rangefilter_*")],
 observe=["range lists from laik_partitioning_myranges/interranges/allranges"])

prop("C17", "Incremental reassignment moves only what must move",
 "Re-partitioning after removing processes leaves every index of a surviving process with that process, and assigns each index of a removed process to exactly one surviving process, with the additional load of each survivor differing from the average by at most the weight of the heaviest such index (never exceeding it by more). Ranges stay with the same physical processes on migration to the shrunken group. The result covers the space and is identical on all processes.",
 ["inputs", "configurations"],
 "all sets of removed processes (also repeatedly), 1D base partitionings and index weights",
 "Tests cover one or two shrink configurations.",
 ["src/partitioner.c"], [("reassign partitioner", "src/partitioner.c runReassignPartitioner")],
 observe=["ranges of the resulting partitioning"])

prop("C18", "Group operations agree on membership and ids",
 "Cloning, shrinking and uniting process groups gives, on all processes, the same member sequence by location; ids are contiguous, the own id matches (or marks absence), and the translations between a group and its parents are mutually inverse on common members. Setting a new world keeps earlier groups usable and increments the epoch exactly once per change of the world; a resize point without backend support changes only the phase. Each group, also a cloned one, can be used for data exchange among its members.",
 ["histories", "inputs"],
 "all sequences of clone/shrink/union/set-world/resize operations (unions of groups not containing each other: without communication)",
 "Tests shrink once or twice in fixed ways.",
 ["src/core.c"], [("group creation", "src/core.c laik_new_shrinked_group/laik_clone_group/laik_new_union_group")],
 observe=["laik_size, laik_myid, laik_group_locationid, group structure"])

prop("C19", "Data survives migration between process groups",
 "Migrating a partitioning to a derived group keeps its index ranges with the same physical processes, and switching a container between partitionings on a group and on its shrunken or parent group preserves every value at every index exactly as within one group. Queries on the migrated partitioning reflect the new process ids.",
 ["histories", "inputs"],
 "all histories of shrinking/cloning groups, base/target partitionings, switches between groups directly derived from each other (both directions), migrations and reassignments",
 "Tests use few shrink sequences with the reassign/block partitioners.",
 ["src/core.c", "src/space.c", "src/rangelist.c", "src/partitioning.c", "src/data.c"],
 [("migration", "src/partitioning.c laik_partitioning_migrate"), ("union group transitions", "src/space.c")],
 observe=["container memory after a cross-group switch; ranges after migration"])

prop("C20", "KV stores converge to the same content",
 "After a synchronisation, all processes of the current world have the same key/value entries: every change (set, overwrite, remove, clean) made by one process since the last synchronisation is visible everywhere byte-exactly, unchanged entries are kept, and different changes of a key by several processes are reported as an error instead of diverging silently. Lookups find exactly the stored entries at any time, and created/changed/removed callbacks fire during synchronisation exactly for the entries changed by others.",
 ["histories", "inputs", "configurations"],
 "all interleavings of set/overwrite/remove/clean/sort/lookup/sync on several stores, any number of processes (also after shrinking the world), sizes of keys and binary values (MPI backend; text values on others: C23)",
 "The test writes a few short strings with one sync.",
 ["src/kvs.c", "src/backend-mpi.c", "src/backends/tcp/backend-tcp.c", "src/backend-tcp2.c"],
 [("change journal and merge", "src/kvs.c laik_kvs_changes_*"), ("backend sync", "src/backend-mpi.c laik_mpi_sync")],
 observe=["laik_kvs_get/count/getn after laik_kvs_sync, callbacks"])

prop("C21", "Synchronised spaces and locations are faithful",
 "A space published or changed in the space store and the location of a process are, after synchronisation, seen by every process of the current world with exactly the dimensions, borders and strings given by their owner; received spaces can be used like own ones.",
 ["inputs", "configurations"],
 "all dimensions, 64-bit borders, numbers of processes",
 "Tests synchronise locations only with few processes; no test synchronises spaces.",
 ["src/space.c", "src/core.c", "src/kvs.c"],
 [("space serialisation", "src/space.c laik_spacestore_*"), ("location store", "src/core.c laik_sync_location")],
 observe=["laik_spacestore_get, laik_group_location"])

prop("C22", "Element reduction and initialisation obey the algebra",
 "For each predefined element type and operation, reducing two arrays gives the element-wise mathematical result in that type (integers modulo their width, and/or bitwise), with missing inputs treated as neutral; the initial value is the neutral element, and in-place operation equals out-of-place. Neighbouring memory is never touched.",
 ["inputs"],
 "all types, operations, counts, input presence, aliasing, extreme values",
 "Tests only sum small positive values.",
 ["src/type.c"], [("type callbacks", "src/type.c")],
 observe=["init/reduce callbacks of the type"])

prop("C23", "All communication backends give the same results",
 "A program run with the same number of processes on any backend (MPI, TCP, TCP2 with binary or text transport, and single for one process) ends with the same container contents, key/value stores and group information.",
 ["programs", "configurations", "schedules"],
 "all programs of switches, reductions, KVS operations; real process timing",
 "Tests run the same few applications per backend and compare their printed output.",
 ["src/backend-single.c", "src/backend-mpi.c", "src/backend-tcp2.c", "src/backends/tcp"],
 [("backend exec functions", "src/backend-*.c")],
 observe=["container memory and KVS on every process"])

prop("C24", "Elastic join and removal keep the world consistent",
 "With the elastic TCP2 backend, after each resize point all remaining and joining processes agree on world size, ids, epoch and phase: exactly the requested processes have left, exactly the waiting ones have joined, survivors keep their relative order and data switched to the new world keeps its values. Without pending requests the world does not change.",
 ["histories", "fault_sequences", "schedules"],
 "all sequences of join/remove requests and their timing relative to resize points",
 "Tests have a few fixed resize scripts with one join or removal.",
 ["src/backend-tcp2.c", "src/core.c"],
 [("resize protocol", "src/backend-tcp2.c tcp2_resize"), ("world switch", "src/core.c laik_allow_world_resize")],
 observe=["laik_size/myid/epoch/phase and container memory on each process"])

prop("C25", "TCP2 control port tolerates arbitrary input",
 "Arbitrary bytes, command lines, fragmentation, and connects/disconnects by third parties on the listening port of a TCP2 process neither crash nor hang a running computation nor change its results; status and help requests are answered completely and in order, other commands of unknown senders are refused with a message, and overlong lines get the connection closed. (Excluded: terminate, a forged identity of a member, and valid join/removal requests.)",
 ["inputs", "fault_sequences", "schedules"],
 "all byte sequences without valid membership-changing commands, all fragmentations and connection orders",
 "Tests send one or two well-formed commands.",
 ["src/backend-tcp2.c"], [("command parser", "src/backend-tcp2.c got_cmd and related")],
 observe=["exit codes and results of the processes, replies on the socket"])

prop("C26", "Reported communication statistics equal the real traffic",
 "The message, element and byte counts of a container's statistics equal the messages, elements and bytes actually sent and received by that process, for every switch and every backend option, and grow exactly with each (repeated) execution.",
 ["inputs", "configurations", "histories"],
 "all partition pairs, repetitions, options",
 "Tests compare few statistics lines of fixed runs with recorded output.",
 ["src/action.c", "src/data.c", "src/backend-mpi.c"],
 [("laik_aseq_calc_stats", "src/action.c"), ("laik_switchstat_addASeq", "src/data.c")],
 observe=["container statistics versus intercepted MPI calls"])

prop("C27", "Logging and profiling never change behaviour",
 "Enabling any log level (for all or some processes, also changed while running), debug output of objects, log files, or profiling never changes container values, message traffic or the outcome of any operation, and never crashes; output of the program itself is never lost. A log message of any length and shape is shown exactly once if its level and process are selected, completely and in order, with the prefix documented for each of its lines, and not at all otherwise.",
 ["configurations", "programs"],
 "all programs of the other properties, log levels, process filters, output redirections; all messages",
 "Tests run at one log level each.",
 ["src/logging.c", "src/debug.c", "src/profiling.c"], [("logging", "src/logging.c"), ("debug output", "src/debug.c")],
 observe=["results and MPI traffic with and without logging/profiling"])

prop("C28", "Example applications compute the same on any process count",
 "The example applications (vector sum, Jacobi 1D/2D/3D, sparse matrix-vector, propagation, Markov) give the result of a sequential reference computation for every problem size, iteration count, number of processes, backend, MPI schedule and option they accept, including processes leaving or joining while they run. (Excluded: processes without any cell, and options for which the example itself asserts otherwise.)",
 ["inputs", "configurations"],
 "all accepted parameters, process counts, schedules and backends",
 "Tests run each example for one problem size with up to 4 processes.",
 ["examples", "src"], [("applications", "examples/*.c")],
 observe=["printed results"])

prop("C29", "The TCP backend's message layer behaves like MPI",
 "The message layer used by the TCP backend delivers every message exactly once to the intended process, in order per sender, tag and communicator and independent of other messages, with exact content and count; buffers can be reused after sending, messages too long for the buffer given are reported as error. "
 "Sending needs no matching receive as long as the configured memory for messages suffices, and this memory is not exceeded by more than the last message. Broadcasts and sum reductions (in place or not) give the results MPI specifies on every member, nobody leaves a barrier before all entered, "
 "duplicated and split communicators have the members, order and separate messages MPI specifies. This holds for all numbers of threads and connections configured, processes starting late, and failing connection attempts.",
 ["schedules", "inputs", "histories"],
 "all message sizes, orders of independent receives, numbers of processes, communicator trees, configurations, start times and failures to connect",
 "Tests use it only indirectly with few small messages.",
 ["src/backends/tcp"], [("minimpi", "src/backends/tcp/minimpi.c"), ("messenger", "src/backends/tcp/messenger.c"), ("message memory", "src/backends/tcp/map.c")],
 observe=["received buffers, status and return codes, times of return"])

prop("C30", "Program control, agents and profiling keep their state",
 "Iteration number and program phase read back exactly as last set, separately per instance. Every agent registered stays registered until cleanup or finalization of its instance, where its library is released exactly once; "
 "the failed nodes reported by all fault tolerance agents are delivered completely, in order and once, limited to the buffer given; agents get every iteration number set. "
 "Measured times are never negative or decreasing between resets, zero when profiling is off or was reset, total time covers the time in the backend and never exceeds the real time passed, and grows only with execution of switches and recorded sequences; "
 "profiling is active for the instance which enabled it last. The profile written consists of exactly the lines requested, in order, with the values at that time.",
 ["histories", "inputs"],
 "all sequences of control, agent and profiling calls over several instances, numbers of agents and reported nodes, histories of switches measured",
 "Tests do not use these interfaces beyond one simulator agent, and never look at measured times.",
 ["src/program.c", "src/external.c", "src/profiling.c", "src/data.c"],
 [("program control", "src/program.c"), ("agents", "src/external.c"), ("timers", "src/profiling.c"), ("times of switches", "src/data.c")],
 observe=["return values of the API", "calls of agent functions", "profile files"])

prop("C31", "Independent programs in one run do not influence each other",
 "Any number of independent programs in the same run, each with its own process group, index spaces, partitionings, containers, recorded action sequences, reservations and key/value stores, behave exactly as each of them would alone: every value, mapping, own range and entry each of them sees is the one of the program executed in isolation. "
 "This holds if their process groups overlap arbitrarily (nested, siblings with the same parent, clones, or the same group), and for any interleaving of their steps in which the processes keep the order of common steps.",
 ["histories", "schedules", "configurations"],
 "all sets of programs on trees of groups derived by shrinking and cloning, interleavings of their steps, schedules, and backends (MPI, TCP, TCP2)",
 "Tests use one group, and few containers, at a time.",
 ["src/core.c", "src/data.c", "src/action.c", "src/backend-mpi.c", "src/backend-tcp2.c", "src/backends/tcp"],
 [("groups", "src/core.c"), ("messages of groups", "src/backend-mpi.c"), ("communicators", "src/backends/tcp/minimpi.c"), ("data in flight by container", "src/backend-tcp2.c"), ("ranks in action sequences", "src/action.c")],
 observe=["container values, own ranges, mappings and key/value entries"])

prop("C32", "Repeating the same work needs no more memory",
 "A program which repeats the same work on LAIK objects any number of times does not accumulate memory: on every process, the memory held by the library at the end of a round stays the same from round to round (after the first rounds). "
 "This holds for rounds which switch containers with any data flow, reduction and layout, execute recorded transitions and action sequences, enter and leave reservations, or change and synchronise key/value stores, with the objects kept over all rounds; "
 "and for rounds which create and release their own containers, partitionings, transitions, action sequences and reservations.",
 ["histories", "inputs"],
 "all rounds of operations, partitionings (number and shape of ranges), communication options and backends (MPI, TCP2, single)",
 "Tests run for a few iterations and never look at memory consumption.",
 ["src/data.c", "src/action.c", "src/space.c", "src/partitioning.c", "src/rangelist.c", "src/kvs.c", "src/backend-mpi.c", "src/backend-tcp2.c"],
 [("switches", "src/data.c"), ("action sequences", "src/action.c"), ("transitions", "src/space.c"), ("partitionings", "src/partitioning.c"), ("change journals", "src/kvs.c")],
 observe=["memory allocated and not released by the library (calls of malloc, calloc, realloc, strdup and free)"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
