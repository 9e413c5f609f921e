"""One entry per simulated check. Paths in `repo` are relative to /repo/mpact/sim."""
SIM_SOURCES = ["sim.cc"]
CHECKS = {}


def check(prop, **kw):
    kw.setdefault("level", "exploration")
    kw.setdefault("quick_runs", 400000)
    kw.setdefault("quick_s", 40)
    kw.setdefault("thorough_runs", 4000000)
    kw.setdefault("thorough_s", 600)
    kw.setdefault("time_unit", "simulated cycles")
    kw.setdefault("assumptions", [])
    kw.setdefault("stub", [])
    CHECKS[prop] = kw


DB = ["generic/data_buffer.cc"]

check("C01", harness=["c01_delay_line.cc"], repo=DB,
      rule="one seed = one schedule of adds (latency, line kind, depth) and advances, with actions adding further actions and destruction with actions pending; "
           "non-trivial: at least three actions added and one advance; distinct by hash of the executed history",
      states="(cycle mod 32, pending count, number of distinct due cycles)",
      real=["DelayLine<>", "FunctionDelayLine", "DataBufferDelayLine", "DataBuffer/DataBufferFactory"],
      stub=["delay-line destinations (recorders)"],
      assumptions=["latency >= 1 (latency 0 is not a delayed action)"],
      must_reach=["destroy-with-pending", "add-from-firing-action", "latency-power-of-two", "many-actions", "more-than-65535-actions"])

ARCH = DB + ["generic/arch_state.cc", "generic/component.cc", "generic/state_item_base.cc", "generic/program_error.cc",
             "generic/register.cc", "generic/fifo.cc", "generic/simple_resource.cc", "generic/resource_bitset.cc"]

check("C02", harness=["c02_register.cc"], repo=ARCH, proto=True,
      rule="one seed = one schedule of allocate/copy/modify/submit/squash/hold operations on 1..8 registers of mixed shapes, latencies and delay lines, interleaved with cycle advances; "
           "non-trivial: at least two submitted writes and one advance; distinct by history hash",
      states="(cycles with writes due, open buffers, held values, writes in flight, registers)",
      real=["ArchState", "Register/VectorRegister/MatrixRegister/ReservedRegister and operands", "DataBuffer(Factory)", "delay lines", "Component"],
      stub=["instructions (simulator-issued operand calls)"],
      assumptions=["all writes of one register go through one delay line (order across delay lines is not promised)"],
      must_reach=["same-cycle-writes", "fan-out", "squashed-write", "teardown-with-writes-in-flight", "burst", "write-from-function"])

check("C03", harness=["c03_data_buffer.cc"], repo=ARCH, proto=True,
      rule="one seed = one history of allocate/copy/incref/decref/submit/land/rename/clear over buffers of small and large sizes from one or two factories; "
           "non-trivial: at least three buffers and one release; distinct by history hash",
      states="(references in flight, held by registers, held by callers, live large buffers)",
      real=["DataBufferFactory", "DataBuffer", "ReferenceCount", "DataBufferDelayLine", "Register", "ArchState"],
      stub=["two recording destinations"],
      assumptions=["a factory outlives the buffers it handed out (they point back to it)"],
      must_reach=["factory-clear", "submit-without-destination", "register-renamed-to-itself", "many-references", "many-buffers"])

check("C04", harness=["c04_simple_resource.cc"], repo=ARCH, proto=True,
      rule="one seed = one schedule of acquire/release on resources, overlapping sets and operands with latencies, register write-backs and cycle advances over one or two pools of width 1..200; "
           "non-trivial: at least two acquires; distinct by history hash",
      states="(busy resources per pool, cycles with releases due, sets)",
      real=["SimpleResourcePool/Set/Resource", "SimpleResourceOperand and delay line", "ReservedRegister", "ResourceBitSet", "ArchState"],
      stub=["instruction issue (simulator-issued calls)"],
      must_reach=["add-to-full-pool", "resource-of-other-pool", "acquire-latency-0"])

check("C05", harness=["c05_complex_resource.cc"], repo=ARCH + ["generic/complex_resource.cc", "generic/complex_resource_operand.cc"], proto=True,
      rule="one seed = one history of reserve/release/ask/mask operations on 1..3 resources of depth 1..512 with clock advances of 1..700 cycles; every cycle of every window is asked at the end; "
           "non-trivial: at least two reservations and an advance; distinct by history hash",
      states="(depth, reserved cycles) of every resource",
      real=["ComplexResource", "ComplexResourceOperand", "ArchState cycle counter"],
      stub=["instruction issue (simulator-issued calls)"],
      assumptions=["cycles asked or reserved lie inside the resource's depth (masks beyond it are refused by the operand)"],
      must_reach=["long-jump", "refused-mask"])

FIFO = ARCH + ["generic/token_fifo.cc", "generic/fifo_with_notify.cc"]
_fifo_rule = ("one seed = one history of direct pushes, delayed operand pushes, reservations, pops, reads, drains, squashes and cycle advances over %s; "
              "non-trivial: at least two pushes and one pop; distinct by history hash")
check("C06", harness=["c06_fifo.cc"], repo=FIFO, proto=True,
      rule=_fifo_rule % "1..3 FIFOs of capacity 0..20 and mixed element types",
      states="(values stored, reservations, capacity) of every FIFO",
      real=["FifoBase/Fifo/VectorFifo and operands", "DataBuffer(Factory)", "delay lines", "ArchState", "ProgramErrorController"],
      stub=["instructions (simulator-issued operand calls)"],
      must_reach=["refused-push", "pop-empty", "read-empty", "teardown-with-pushes-in-flight", "pushes-landing-together", "buffer-in-two-fifos"])
check("C07", harness=["c07_token_fifo.cc"], repo=FIFO, proto=True,
      rule=_fifo_rule % "1..4 token FIFOs sharing 1..2 token stores",
      states="(values stored, reservations, capacity) of every FIFO and tokens left in every store",
      real=["TokenFifoBase", "FifoTokenStore", "FifoBase", "DataBuffer(Factory)", "delay lines", "ArchState", "ProgramErrorController"],
      stub=["instructions (simulator-issued operand calls)"],
      assumptions=["tokens of values still stored when a FIFO is destroyed are not returned (the store may already be gone)"],
      must_reach=["refused-push", "pop-empty", "pop-empty-with-reservation", "pushes-landing-together"])
check("C08", harness=["c08_fifo_with_notify.cc"], repo=FIFO, proto=True,
      rule=_fifo_rule % "1..3 notifying FIFOs, with callbacks registered and cleared and callbacks that push, pop and reserve",
      states="(values stored, reservations, capacity) of every FIFO",
      real=["FifoWithNotifyBase", "FifoBase", "DataBuffer(Factory)", "delay lines", "ArchState", "ProgramErrorController"],
      stub=["instructions (simulator-issued operand calls)"],
      assumptions=["a callback does not replace itself while running"],
      must_reach=["refused-push", "pop-empty", "not-empty-with-reservation", "emptied-with-reservation", "operation-from-callback", "callback-replaced"])

check("C09", harness=["c09_program_error.cc"], repo=["generic/program_error.cc"],
      rule="one seed = one history of add/raise/handle-raise/mask/unmask/clear/clear-all/query over up to 42 names (known, unknown and internal) and 1..2 controllers, every observer read after every step; "
           "non-trivial: at least two raises and one raised error moved by mask or unmask; distinct by history hash",
      states="(raised masked, raised unmasked, masked) counts per controller",
      real=["ProgramErrorController", "ProgramError"],
      assumptions=["texts of the controller's own internal-error messages are not fixed, only their number"],
      time_unit="operations",
      must_reach=["unknown-name", "re-added-name", "mask-internal", "mask-raised", "unmask-raised", "raise-while-masked", "many-names", "many-messages"])

check("C10", harness=["c10_status_control.cc"], repo=ARCH + ["generic/control_register.cc"], proto=True,
      rule="one seed = one schedule of condition changes, bit bindings, delayed/immediate writes to control registers (seven update rules) and to read-only status registers, held buffers and cycle advances; "
           "non-trivial: at least two writes and one advance; distinct by history hash",
      states="(open and held buffers, update rules, writes in flight by distance)",
      real=["StatusRegister", "ControlRegister", "register operands", "DataBuffer(Factory)", "delay lines", "ArchState"],
      stub=["instructions (simulator-issued operand calls)", "update rules and bit conditions"],
      must_reach=["write-to-read-only", "squashed-write", "same-cycle-writes", "write-from-update-rule", "buffer-held-across-write", "teardown-with-writes-in-flight", "condition-reads-register"])

INST = ARCH + ["generic/instruction.cc"]
check("C11", harness=["c11_decode_cache.cc"], repo=INST + ["generic/decode_cache.cc"], proto=True,
      rule="one seed = one geometry and one history of fetches, self-modification with single/range/full invalidation at any alignment and up to the top of the address space, instruction holds and refused decodes; "
           "non-trivial: at least two decodes and one invalidation; distinct by history hash",
      states="(geometry, cached entries, held instructions)",
      real=["DecodeCache", "Instruction", "ReferenceCount"], stub=["decoder over a simulated, rewritable program memory"],
      assumptions=["the decoder sets the address it was asked for"],
      time_unit="operations",
      must_reach=["decoder-refuses", "invalid-configuration", "conflict-eviction", "unaligned-range", "range-at-top-of-memory", "invalidate-while-decoding", "fetch-while-decoding"])

check("C12", harness=["c12_instruction.cc"], repo=INST, proto=True,
      rule="one seed = one history of building instruction lists and trees, attaching operands and attributes, executing (directly and delayed), holding and releasing in any order; "
           "non-trivial: at least one link and one execution; distinct by history hash",
      states="(alive, linked, references, child, next) of every instruction",
      real=["Instruction", "ReferenceCount", "ArchState", "FunctionDelayLine"], stub=["operands and semantic functions (recorders)"],
      assumptions=["whoever executes an instruction holds a reference to it", "an instruction is on at most one list, and lists are acyclic"],
      must_reach=["parent-released-first", "sibling-outlives-parent", "execution-in-flight", "attributes-replaced", "semantics-replaced"])

check("C13", harness=["c13_action_points.cc"], repo=["generic/action_point_manager_base.cc", "generic/breakpoint_manager.cc"],
      rule="one seed = one history of set/clear/enable/disable of actions and breakpoints at 1..4 addresses, hits whose actions change action points, stale and unknown identifiers, with target-memory writes failing; "
           "non-trivial: at least three operations and one hit; distinct by history hash",
      states="(enabled actions, actions) per address and breakpoints",
      real=["ActionPointManagerBase", "BreakpointManager"], stub=["target memory with failing writes", "actions (recorders and mutators)"],
      assumptions=["the void clear-all operations cannot report a failed write, so none is injected there",
                   "the breakpoint manager and the action point manager are torn down together",
                   "whether an action set or enabled during a hit runs in that same hit is not fixed"],
      time_unit="operations",
      must_reach=["breakpoint-write-fails", "restore-write-fails", "stale-identifier", "unknown-address-hit", "action-clears-itself", "action-clears-another", "action-sets-action", "action-clears-breakpoint"])

MEM = INST + ["util/memory/flat_memory.cc", "util/memory/flat_demand_memory.cc", "util/memory/tagged_flat_demand_memory.cc",
              "util/memory/tagged_to_untagged_memory_transactor.cc"]
_mem_stub = ["memory clients (instructions, contexts and buffers issued, held and dropped by the simulator)"]
check("C14", harness=["c14_memory.cc"], repo=MEM, proto=True,
      rule="one seed = one memory model (kind, base, size, addressable unit, fill) and one history of scalar, unit-stride and scattered loads and stores with latencies 0..40, clients dropping their references in flight, interleaved with cycle advances; "
           "non-trivial: at least one load and one store; distinct by history hash",
      states="(model kind, loads in flight by distance and references held, bytes written)",
      real=["FlatMemory", "FlatDemandMemory", "TaggedFlatDemandMemory", "TaggedToUntaggedMemoryTransactor", "Instruction", "ArchState function delay line", "DataBuffer(Factory)"],
      stub=_mem_stub,
      assumptions=["accesses lie inside the configured range and are whole addressable units (others are programming errors the code asserts on)",
                   "element sizes of FlatMemory vector accesses are 1, 2, 4 or 8", "tagged memory is byte addressed"],
      must_reach=["client-drops-references", "unit-stride", "all-masked", "long-access", "whole-address-space", "tag-only-load", "clear"])

TAGGED = MEM + ["util/memory/atomic_memory.cc", "util/memory/atomic_tagged_memory.cc", "util/memory/memory_watcher.cc", "util/memory/tagged_memory_watcher.cc"]
check("C15", harness=["c15_tags.cc"], repo=TAGGED, proto=True,
      rule="one seed = one tag granule (1..32), memory size and stack of 0..2 watcher/atomic layers, and one history of tagged and untagged scalar, unit-stride and scattered accesses with latencies, clients dropping references in flight; "
           "non-trivial: at least one tagged and one untagged store; distinct by history hash",
      states="(granule, loads in flight, bytes and tags written)",
      real=["TaggedFlatDemandMemory", "FlatDemandMemory", "AtomicTaggedMemory", "TaggedMemoryWatcher", "Instruction", "function delay line", "DataBuffer(Factory)"],
      stub=_mem_stub,
      assumptions=["tagged accesses are aligned to, and a multiple of, the granule (others are refused)", "tagged memory is byte addressed, its base and size multiples of the granule"],
      must_reach=["client-drops-references", "unit-stride", "all-masked", "tag-only-load", "through-atomic", "through-watcher", "tag-block-boundary", "malformed-tagged-access"])
check("C16", harness=["c16_atomics.cc"], repo=TAGGED, proto=True,
      rule="one seed = one interleaving of load-linked, store-conditional, ten atomic operations and plain, vector and tagged stores to a few shared granules; "
           "non-trivial: at least one load-linked and one store-conditional; distinct by history hash",
      states="set of linked granules and loads in flight",
      real=["AtomicMemory", "AtomicTaggedMemory", "FlatDemandMemory", "TaggedFlatDemandMemory", "Instruction", "DataBuffer(Factory)"],
      stub=["harts (interleaved by the simulator)"],
      assumptions=["atomic accesses are naturally aligned", "a location is the 8-byte granule the code documents", "all writes go through the atomic memory",
                   "a masked-off vector element may or may not break a link"],
      must_reach=["unsupported-size", "sc-succeeds", "sc-fails", "store-breaks-link", "link-broken-beyond-first-granule", "atomic-breaks-link", "high-address-bits"])
check("C17", harness=["c17_watchers.cc"], repo=TAGGED, proto=True,
      rule="one seed = one history of setting and clearing load and store watch ranges (legal, overlapping, malformed) and scalar, unit-stride, scattered and tagged accesses; "
           "non-trivial: at least one watched access; distinct by history hash",
      states="(loads in flight, store ranges, number of load ranges)",
      real=["MemoryWatcher", "TaggedMemoryWatcher", "FlatDemandMemory", "TaggedFlatDemandMemory", "Instruction", "function delay line"],
      stub=_mem_stub + ["watch callbacks (recorders)", "recorder between watcher and memory"],
      assumptions=["a callback does not change the watch list", "whether a tag-only load is watched is not fixed"],
      must_reach=["malformed-range", "overlapping-range", "adjacent-range", "clear-without-range", "access-spans-two-ranges", "unit-stride", "store-callback-reads-memory", "high-address-bits"])
check("C18", harness=["c18_router.cc"], repo=TAGGED + ["util/memory/single_initiator_router.cc", "util/memory/memory_router.cc"], proto=True,
      rule="one seed = one router (single initiator with default targets, or a memory router with 1..3 initiators), 1..5 targets of three kinds, and one history of mappings (adjacent, overlapping, malformed, duplicate) and scalar, vector, tagged and atomic accesses aimed across range boundaries; "
           "non-trivial: at least one mapping and one delivered access; distinct by history hash",
      states="the set of mappings and default targets",
      real=["SingleInitiatorRouter", "MemoryRouter", "FlatDemandMemory", "TaggedFlatDemandMemory", "Instruction"],
      stub=["initiators", "recorders in front of the target memories", "atomic targets (may fail)"],
      assumptions=["an empty (base == top) range is refused, as the router documents", "accesses do not wrap around the top of the address space",
                   "where a vector access with no enabled element is delivered is not fixed, only that a load completes"],
      time_unit="operations",
      must_reach=["straddling-access", "no-target", "vector-over-two-targets", "refused-mapping", "same-range-other-target", "adjacent-mapping", "default-target", "unknown-name", "atomic-target-fails", "memory-router", "all-masked-load", "high-address-bits"])

check("C19", harness=["c19_cache.cc"], repo=MEM + ["util/memory/cache.cc"], proto=True,
      rule="one seed = one cache geometry (line 4..32 bytes, 1..16 lines, any associativity, write policy, cacheability ranges), memory kind and history of scalar, vector, tagged and tag-only accesses with latencies, reconfigurations (valid and invalid), clients dropping references in flight and clock advances; "
           "non-trivial: at least two accesses; distinct by history hash",
      states="(geometry, resident blocks with dirty bits, loads in flight)",
      real=["Cache", "Component", "SimpleCounter", "FlatDemandMemory", "TaggedFlatDemandMemory", "Instruction", "function delay line", "DataBuffer(Factory)"],
      stub=_mem_stub + ["cycle counter (driven by the simulator)", "recorder between cache and memory"],
      assumptions=["the order of uses within one cycle is not visible to the replacement policy, so no victim is chosen among lines last used in the same cycle",
                   "an access lies wholly inside or wholly outside the cacheability ranges, and ranges do not overlap", "no line is pinned (no interface pins one)"],
      must_reach=["invalid-configuration", "eviction", "dirty-eviction", "fully-associative", "cacheability-ranges", "tagged-cache", "tag-only-load", "unit-stride", "client-drops-references", "several-accesses-in-a-cycle", "reconfigured", "high-address-bits"])
check("C20", harness=["c20_use_profiler.cc"], repo=MEM + ["util/memory/memory_use_profiler.cc"], proto=True,
      rule="one seed = one history of scalar, unit-stride, scattered and tagged loads and stores in 1..3 windows placed across word, segment and address-space edges, with profiling toggled, and the profile written at any point, some through a profiler with no memory behind it; "
           "non-trivial: at least one profiled access; distinct by history hash",
      states="the set of words used, and whether profiling is on",
      real=["MemoryUseProfiler", "TaggedMemoryUseProfiler", "MemoryUseTracker", "FlatDemandMemory", "TaggedFlatDemandMemory", "Instruction", "function delay line"],
      stub=_mem_stub + ["recorder between profiler and memory", "output sink"],
      assumptions=["accesses (or vector elements) over 8 bytes are not profiled, as the code documents", "a tag-only load touches no data word"],
      time_unit="simulated cycles",
      must_reach=["no-memory", "tagged", "access-spans-words", "access-spans-segments", "access-over-8-bytes", "access-while-disabled", "unit-stride", "profile-checked"])
check("C26", harness=["c26_uart.cc"], repo=INST + ["util/other/simple_uart.cc"], proto=True,
      rule="one seed = one history of register loads and stores of 1..9 words (aligned, misaligned, odd-sized) with latencies, clients dropping references in flight, the output sink rejecting bytes, and cycle advances; "
           "non-trivial: at least one transmitted byte and one load; distinct by history hash",
      states="(register values, bytes sent, loads in flight)",
      real=["SimpleUart", "Instruction", "function delay line", "DataBuffer(Factory)"], stub=_mem_stub + ["output sink (may fail)"],
      assumptions=["after the sink has failed, only that nothing is emitted twice or out of order is required until the stream is cleared"],
      must_reach=["misaligned", "odd-size", "output-fails", "divisor-latch", "several-registers", "ignored-store", "client-drops-references"])
check("C27", harness=["c27_counters.cc"], repo=["generic/component.cc"], proto=True,
      rule="one seed = one component tree of 1..4 components, 1..6 counters of four kinds with listener chains, 0..4 configuration entries, and one history of updates, enabling, listener attachment, export, import of well-formed and malformed data; "
           "non-trivial: at least two updates; distinct by history hash",
      states="values and enabled state of all counters",
      real=["SimpleCounter", "FunctionCounter", "CounterValueOutputBase", "Config", "Component", "ComponentData proto"], stub=["listeners (recorders)"],
      assumptions=["listener graphs are acyclic", "after a refused import, how many of its entries took effect is not fixed", "configuration entries have a default value"],
      time_unit="operations",
      must_reach=["update-while-disabled", "function-filters", "listener-chain", "uninitialised-counter", "import-wrong-name", "import-wrong-type", "import-unnamed-entry", "import-unknown-entry", "import-unnamed-component", "config-wrong-type"])
check("C25", harness=["c25_renode_bridge.cc"], repo=INST + ["util/renode/renode_mpact.cc", "util/renode/renode_memory_access.cc"], proto=True,
      rule="one seed = one history of construct/connect/destruct and step, memory, register, image, configuration and bus calls over up to 5 instances and unknown ids, with core calls failing, stopping early or coming up short, bus transfers short, and file reads failing or short; "
           "non-trivial: at least one step and one other call; distinct by history hash",
      states="(ids, bound callbacks, core memory size, halt reason) of every instance",
      real=["Renode C interface", "RenodeAgent", "RenodeMemoryAccess", "Instruction", "function delay line", "libstdc++ file stream"],
      stub=["cores behind RenodeDebugInterface", "bus callbacks", "read() under the image file"],
      assumptions=["negative results are errors (as the C# side takes them)", "status for a watchpoint or hardware breakpoint halt is 0 or the matching code", "a status pointer is given to load_elf",
                   "bytes of a buffer a short bus transfer did not deliver are not fixed"],
      must_reach=["unknown-id", "core-creation-fails", "connect-to-live-instance", "destruct", "core-stops-early", "core-step-fails", "halt-reason-unavailable", "step-after-exit", "several-core-steps", "more-than-2^32-steps",
                  "core-call-fails", "short-memory-access", "short-bus-transfer", "missing-file", "file-read-fails", "short-file-read", "image-write-fails", "image-write-short", "image-of-whole-buffers"])
SYNC = "-include %s/sim/dst_mutex.h" % __import__("os").path.dirname(__import__("os").path.abspath(__file__))
EDGES = "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"
check("C23", harness=["c23_cli_top.cc"], sim=["dst_sched.cc"], repo=["util/renode/renode_cli_top.cc", "util/renode/cli_forwarder.cc"], proto=True, repo_flags=EDGES, flags=SYNC,
      rule="one seed = one interleaving (three scheduling policies, preemption at any basic block of the code under test) of a Renode thread issuing step requests and accesses, a CLI thread connecting, running, stepping, accessing and disconnecting, and a thread asking for halts, over a core that halts, ends, or fails at any instruction; "
           "non-trivial: at least one Renode step request and one CLI run or step; distinct by history hash (every scheduling decision is in it)",
      states="(Renode requests, CLI steps, CLI runs, core steps, last halt reason)",
      real=["RenodeCLITop", "CLIForwarder"], stub=["absl::Mutex (on the scheduler)", "Renode, CLI and halting threads", "core"],
      assumptions=["GetLastHaltReason does not fail (the code checks it fatally)", "Renode issues one request at a time, and other accesses only between its steps",
                   "a step request issued when control lies with an absent CLI waits for one to connect", "once the program has ended Renode's own accesses and the CLI's may overlap"],
      time_unit="core steps",
      must_reach=["wait-for-cli", "core-halts", "program-ends", "core-step-fails", "core-call-fails", "asynchronous-halt", "cli-step-over-several-quanta", "halt-on-last-step", "halt-requested-while-stepping", "renode-step-after-end", "renode-stops-at-end", "command-without-result", "program-ends-in-cli-step"])
check("C24", harness=["c24_socket_cli.cc"], sim=["dst_sched.cc", "dst_socket.cc"], repo=["util/renode/socket_cli.cc"], proto=True, repo_flags=EDGES, flags=SYNC,
      rule="one seed = one interleaving (three scheduling policies, preemption at any basic block of the code under test) of the CLI thread, a client that connects, sends, receives, half-closes, closes or resets, and an owner that creates and destroys the CLI 1..3 times, with any socket call failing, short or interrupted; "
           "non-trivial: the shell was served; distinct by history hash (every scheduling decision is in it)",
      states="(reports, sessions, failed set-up calls, bytes read and written by the shell)",
      real=["SocketCLI", "SocketStreambuf", "std::thread and iostreams on top of the seams"], stub=["threads and mutexes (on the scheduler)", "sockets", "client", "owner", "shell"],
      assumptions=["SIGPIPE is ignored (as in the .NET host), so a write to a closed connection fails with EPIPE", "the client sends CR only as part of CR LF", "an interrupted read may be taken as end of input"],
      time_unit="scheduling steps",
      must_reach=["setup-failed", "accept-fails", "accept-interrupted", "read-fails", "read-interrupted", "write-fails", "write-interrupted", "short-write", "close-reports-error", "client-closes", "client-resets", "client-half-closes",
                  "destroyed-while-serving", "destroyed-between-accept-and-shell", "destroyed-while-waiting", "cli-created-again", "output-stream-failed", "full-send-buffer"])
check("C28", harness=["c28_elf_loader.cc"], repo=DB + ["util/program_loader/elf_program_loader.cc"],
      rule="one seed = three files of 0..6 segments and 0..3 symbol tables, one loader of the four kinds, and one history of program and symbol loads (unreadable and invalid files, segment writes failing or short) with symbol, function and stack-size lookups in between; "
           "non-trivial: at least one program with a loadable segment was loaded; distinct by history hash",
      states="(loader kind, what is loaded and how, memory size)",
      real=["ElfProgramLoader", "DataBuffer(Factory)"], stub=["ELFIO (not available offline; a stand-in with the same interface over simulated files)", "stat()", "memories", "core debug interface"],
      assumptions=["ELFIO parses files correctly", "function symbols do not partly overlap", "the memory descriptors outlive the loader"],
      time_unit="operations",
      must_reach=["missing-file", "file-load-fails", "invalid-file", "write-fails", "short-write", "another-file-loaded", "load-fails-after-load", "several-memories", "symbol-found", "function-found-by-range", "stack-size-found"])
check("C29", harness=["c29_instruction_profile.cc"], repo=["generic/component.cc"] + DB + ["util/other/instruction_profiler.cc", "util/program_loader/elf_program_loader.cc", "util/memory/memory_watcher.cc"], proto=True,
      rule="one seed = one file of 0..6 segments (adjacent, near, far, at either end of the address space; sometimes missing or unreadable), 1..3 profilers of granules 1..256 on one program counter, given the program at construction or later, and one history of jumps, straight-line code and loops in, at the edges of and outside the text, with the counter switched on and off and the profile written at any point, some through a profiler with no memory behind it; "
           "non-trivial: at least two samples in the text; distinct by history hash",
      states="counts of every granule of every profile",
      real=["InstructionProfiler", "SimpleCounter", "ElfProgramLoader"], stub=["ELFIO (not available offline; a stand-in with the same interface over simulated files)", "stat()", "memory", "core (writes the program counter)", "output sink"],
      assumptions=["loadable segments are in address order (as ELF requires)", "the granularity is a power of two", "a profiler is given one program"],
      time_unit="operations",
      must_reach=["several-texts", "text-at-top", "granule-of-one", "sample-outside-text", "sample-before-program", "program-set-later", "program-not-loaded", "profile-checked"])
check("C30", harness=["c30_machine.cc"],
      repo=TAGGED + ["generic/complex_resource.cc", "generic/complex_resource_operand.cc", "generic/decode_cache.cc", "generic/action_point_manager_base.cc", "generic/breakpoint_manager.cc",
                     "util/memory/cache.cc", "util/memory/memory_use_profiler.cc", "util/memory/single_initiator_router.cc"], proto=True,
      rule="one seed = one core (latencies, issue width, functional unit, plain or reserved registers, FIFO sizes, decode cache geometry, a stack of 0..4 memory layers), one random program with branches, atomics, load-linked/store-conditional, vector arithmetic, operands read as every type, gathers, scatters and self-modification, and one schedule of device traffic, core stalls and debugger actions; "
           "non-trivial: at least ten instructions issued and one had to wait; distinct by history hash",
      states="(program counter, cycles until each register is free, values in the FIFOs)",
      real=["ArchState", "Register", "VectorRegister", "ReservedRegister", "operands (register, literal, immediate, devnull)", "instruction helpers", "DataBuffer(Factory)", "delay lines", "SimpleResource", "ComplexResource", "Fifo", "Instruction", "DecodeCache", "ActionPointManagerBase", "BreakpointManager",
            "FlatDemandMemory", "AtomicMemory", "MemoryWatcher", "MemoryUseProfiler", "Cache", "SingleInitiatorRouter"],
      stub=["instruction set (decoder, semantic functions, issue loop)", "devices at the far ends of the FIFOs", "debugger", "action point memory interface"],
      assumptions=["an instruction issues once everything it reads and writes is free, and reserves what it writes until the write lands", "a functional unit of at most 64 cycles",
                   "the debugger sets no action point on code that modifies itself"],
      must_reach=["waits-for-resources", "several-issues-per-cycle", "several-action-point-hits", "breakpoint-halt", "self-modification", "routed-memory", "through-watcher", "through-cache", "through-profiler", "core-stalled", "decodings-flushed",
                  "memory-changed-by-debugger", "past-32-bits", "teardown-with-writes-in-flight", "vector-access", "read-as-another-type", "hardwired-zero", "store-conditional-succeeds", "store-conditional-fails"])
GDB = dict(sim=["dst_sched.cc", "dst_socket.cc"], repo=DB + ["util/gdbserver/gdbserver.cc"], time_unit="scheduling steps",
           states="(commands executed, last halt reason, failed set-up calls, failed reads and writes)",
           real=["GdbServer", "GdbSocketStreambuf", "DataBuffer", "iostreams on top of the seams"],
           stub=["sockets", "GDB client", "core debug interface", "RE2 (not available offline; a small backtracking matcher with the same interface)", "absl flags"])
check("C21", harness=["c21_gdb_link.cc"], flags=SYNC,
      rule="one seed = 1..3 sessions of one server with a client that sends up to 40 packets, whole or in pieces, corrupted, cut, duplicated, oversized or unacknowledged, and leaves at any byte, while any socket call fails, is short or is interrupted; "
           "non-trivial: at least one intact command was executed; distinct by history hash",
      assumptions=["SIGPIPE is ignored, so a write to a closed connection fails with EPIPE"],
      must_reach=["checksum-corrupted", "byte-corrupted", "byte-lost", "byte-duplicated", "packet-duplicated", "packet-truncated", "oversize-packet", "escape-cut", "response-nak", "retry-limit", "response-retransmitted", "no-ack-mode", "client-resets", "client-closes",
                  "client-half-closes", "read-fails", "write-fails", "read-interrupted", "write-interrupted", "socket-fails", "bind-fails", "listen-fails", "accept-fails", "session-after-session", "killed", "detached"], **GDB)
check("C22", harness=["c22_gdb_commands.cc"], flags=SYNC,
      rule="one seed = 1..3 sessions of up to 40 well-formed and malformed commands over a random register description and a core any of whose calls may fail or come up short and which halts for any reason; "
           "non-trivial: at least one command was executed; distinct by history hash",
      assumptions=["the core answers the same question the same way until it runs or is written", "no conditional breakpoints and no step with an address (the server does not support them)"],
      must_reach=["core-call-fails", "short-memory-read", "short-memory-write", "malformed-command", "stop-reply", "continue-while-running", "vcont-continue", "vcont-step", "watchpoint-reported", "registers-written", "register-written", "memory-written",
                  "short-read-reported", "breakpoint-set", "breakpoint-cleared", "xml-read", "no-ack-mode", "killed", "detached", "session-after-session"], **GDB)

check("C31", harness=["c31_log_sink.cc", ("c31_sink.cc", EDGES)], sim=["dst_sched.cc"], repo=[], proto=True, flags=SYNC,
      rule="one seed = one interleaving (three scheduling policies, preemption at any memory access of the code under test) of 2..5 threads that log messages of every severity, read the counts and the kept entries, and reset the counts; "
           "non-trivial: calls of different threads overlap and there are at least three of them; distinct by history hash (every scheduling decision is in it)",
      states="(final counts, overlapping calls, threads)",
      real=["LogSink"], stub=["absl::Mutex (on the scheduler)", "logging library (delivers each message from the thread that logs it)", "logging, reading and resetting threads"],
      time_unit="calls",
      must_reach=["same-text-again", "overlapping-calls", "reads", "entries-read", "reset"])
