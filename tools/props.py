#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run it to regenerate the file."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["mpact/sim/" + f for f in files],
                          "mechanism": [{"name": n, "where": "mpact/sim/" + w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

prop("C01", "Delayed actions fire exactly once, at their exact cycle, in order",
     "An action added to a delay line with latency n >= 1 is performed exactly once, during the n-th advance after it was added, "
     "whatever the initial depth, however often the line grows, and whether it was added between cycles or by another action while the line was advancing. "
     "Actions due in the same cycle run in the order they were added; the line reports empty exactly when nothing is pending, and the counts returned by add and advance equal the number pending. "
     "Destroying a line with pending actions performs none of them and releases everything they hold.",
     ["schedules", "histories", "configurations"],
     "every interleaving of adds (any latency, any initial depth, from outside or from inside a firing action) and advances",
     "delay_line_test samples three fixed schedules; wrap positions, latencies equal to the current depth and growth during a firing are never reached.",
     ["generic/delay_line.h", "generic/function_delay_line.h", "generic/data_buffer.h", "generic/arch_state.cc"],
     [("DelayLine::Add/Resize", "generic/delay_line.h"), ("DelayLine::Advance", "generic/delay_line.h")],
     ["DelayLine::Advance return value", "callbacks", "IsEmpty"])

prop("C02", "A register write becomes visible exactly when its latency has elapsed",
     "A value submitted through a register destination operand with latency n is what every source operand of that register reads from cycle n after submission (immediately for 0) until a later write lands, and no earlier; "
     "writes landing in the same cycle take effect in submission order, and a submitted copy is based on the register value at the time of the copy. "
     "Advancing the machine state advances every registered delay line exactly once per cycle.",
     ["schedules", "histories"],
     "every schedule of reads, writes with mixed latencies, partial (copy-modify) writes and cycle advances over several registers and delay lines",
     "Unit tests write one register at one latency; nothing composes overlapping in-flight writes of different latencies with buffer recycling.",
     ["generic/register.h", "generic/register.cc", "generic/arch_state.cc", "generic/data_buffer.cc", "generic/state_item.h"],
     [("RegisterBase::SetDataBuffer", "generic/register.cc"), ("DataBuffer::Submit", "generic/data_buffer.cc"), ("ArchState::AdvanceDelayLines", "generic/arch_state.cc")],
     ["SourceOperandInterface::AsUint64", "register data buffer contents"])

prop("C03", "A data buffer is recycled only after its last holder lets go",
     "A buffer handed out by a factory keeps its contents, size and identity until every reference to it (caller, register, in-flight write) has been released, and two live buffers never share storage; "
     "a released buffer may be handed out again only for a request of the same size, with a reference count of one. "
     "Clearing or destroying the factory at any point frees exactly the buffers that are not in use, and once all holders are gone no storage remains.",
     ["histories", "schedules"],
     "every history of allocate, copy, add/drop reference, submit with latency, register replacement, factory clear, over small and large sizes",
     "data_buffer_test recycles one buffer of one size; clearing between recycling of large buffers, or aliasing after overlapping in-flight writes, is never exercised.",
     ["generic/data_buffer.h", "generic/data_buffer.cc", "generic/ref_count.h"],
     [("DataBufferFactory::Allocate/Recycle/Clear", "generic/data_buffer.h"), ("ReferenceCount", "generic/ref_count.h")],
     ["raw_ptr()", "ref_count()", "contents"])

prop("C04", "Simple resources are busy exactly from acquire to matching release",
     "An acquire makes every resource it names busy at once; each stays busy until the next release naming it takes effect, which is exactly the stated number of cycles after the release was issued (immediately for 0), or, for a reserved register, when a write to the register lands. A resource no acquire has touched since its last release reads free. "
     "A set or operand is free if and only if every resource it names is free, and operations on one set never change a resource outside it.",
     ["schedules", "histories"],
     "every interleaving of acquires, delayed releases, register write-backs and cycle advances over overlapping resource sets in pools of any size",
     "Tests acquire and release single resources within one cycle; overlapping sets, pools crossing 64-bit word boundaries and delayed releases that cross are not sampled.",
     ["generic/simple_resource.h", "generic/simple_resource.cc", "generic/simple_resource_operand.h", "generic/resource_bitset.h", "generic/resource_bitset.cc", "generic/register.cc"],
     [("SimpleResourcePool", "generic/simple_resource.cc"), ("SimpleResourceOperand", "generic/simple_resource_operand.h"), ("ResourceBitSet", "generic/resource_bitset.cc")],
     ["IsFree", "IsSetFree", "resource pool bit vector"])

prop("C05", "Cycle-reserved resources track every future cycle exactly",
     "For a resource reserved by cycle mask, asking whether a set of future cycles (counted from the time of asking) is free answers yes exactly when no reservation made so far covers any of them, no matter how time has advanced in between (single cycles, long jumps past the window, several reservations at the same cycle). "
     "Reserving marks exactly the requested cycles that fall inside the resource's window, and cycles that have passed never block later ones.",
     ["schedules", "histories", "configurations"],
     "every history of reservations, queries and arbitrary clock advances, for every window depth",
     "complex_resource_test uses one depth and small advances; depths that are not a multiple of 64 and jumps of 64 cycles or more are not reached.",
     ["generic/complex_resource.h", "generic/complex_resource.cc", "generic/complex_resource_operand.h", "generic/complex_resource_operand.cc"],
     [("ComplexResource::Advance/IsFree/Acquire", "generic/complex_resource.cc"), ("ComplexResourceOperand::SetCycleMask", "generic/complex_resource_operand.cc")],
     ["IsFree answers"])

prop("C06", "FIFOs deliver each accepted value once, in order, within capacity",
     "A push first uses up one outstanding reservation if there is one, and is accepted exactly when the values stored plus the reservations still outstanding are fewer than the capacity; accepted values are delivered exactly once in push order, and the values stored never exceed the capacity; front and available always describe the oldest undelivered value and the number stored. "
     "Pushing when full raises the overflow error and stores nothing, popping or reading an empty FIFO raises the underflow error (a read yields zero, not stale or freed data), and pushes delivered through a delay line arrive at their cycle in order.",
     ["schedules", "histories"],
     "every interleaving of push, delayed push, reserve, pop, front, operand reads and cycle advances, for every capacity",
     "fifo_test fills and drains once; reservations interleaved with delayed pushes, wrap-around and overflow while a write is in flight are not sampled.",
     ["generic/fifo.h", "generic/fifo.cc"],
     [("FifoBase::Push/Pop/Reserve/SetDataBuffer", "generic/fifo.cc"), ("FifoSourceOperand", "generic/fifo.h")],
     ["Front/Pop/Available", "overflow/underflow program errors"])

prop("C07", "FIFOs sharing a token store never hold more than the tokens, and lose none",
     "While they live, FIFOs that share a token store together never store more values than the store has tokens, and tokens available plus values stored always equals the initial number of tokens. "
     "A push is refused exactly when its own FIFO is full or no token is left, and a refused push or a pop of an empty FIFO changes no token count; fullness, emptiness and oversubscription are reported accordingly.",
     ["schedules", "histories"],
     "every interleaving of push, reserve, pop and delayed delivery over several FIFOs and one store",
     "token_fifo_test has a fixed fill and drain order and never mixes reservations, refused pushes and empty pops.",
     ["generic/token_fifo.h", "generic/token_fifo.cc", "generic/fifo.cc"],
     [("TokenFifoBase::Push/Pop", "generic/token_fifo.cc"), ("FifoTokenStore::Acquire/Release", "generic/token_fifo.h")],
     ["FifoTokenStore::available", "Available", "IsFull"])

prop("C08", "Empty/not-empty notifications mirror the FIFO's transitions exactly",
     "A FIFO with notifications calls its not-empty callback once each time a value is stored into an empty FIFO and its empty callback once each time the last value is removed, and never otherwise, including when pushes are refused, pops hit an empty FIFO, or reservations are outstanding.",
     ["schedules", "histories"],
     "every interleaving of pushes, pops, reservations and refused operations, with callbacks registered or not",
     "fifo_with_notify_test pushes and pops one element; refused pushes, empty pops and reservations are not combined with callbacks.",
     ["generic/fifo_with_notify.h", "generic/fifo_with_notify.cc", "generic/fifo.cc"],
     [("FifoWithNotifyBase::Push/Pop", "generic/fifo_with_notify.cc")],
     ["callback invocations"])

prop("C09", "Program errors are reported exactly as raised, masked and cleared",
     "Whatever the history of raising, masking, unmasking and clearing, the controller reports an unmasked error exactly when some raised, not yet cleared error is unmasked, a masked one exactly when some raised, uncleared error is masked, any error when there is either, and lists exactly those names; "
     "masking or unmasking moves an already raised error between the two without losing it or its messages (kept in the order raised), and clearing removes it from both. "
     "Unknown names, re-added names and attempts to mask the internal error are refused without affecting any other error, apart from being recorded once as an internal error.",
     ["histories"],
     "every history of add, raise, mask, unmask, clear and clear-all over several named errors and several holders",
     "program_error_test walks one error through one path; mask/unmask/raise orders over several errors are not covered.",
     ["generic/program_error.h", "generic/program_error.cc"],
     [("ProgramErrorController", "generic/program_error.cc")],
     ["HasError", "HasMaskedError", "GetUnmaskedErrorNames", "GetMaskedErrorNames", "GetErrorMessages"])

prop("C10", "Status and control registers apply each write once with their mask rules",
     "A status register read, plain, masked or through an operand, returns for every bit (of the mask) what its condition says at that moment, and a write aimed at it changes nothing. "
     "A write to a control register (immediate or delayed) invokes its update rule exactly once, at its cycle, in submission order and with the data written, and afterwards the register reads exactly what the rule stored. Either way the written buffer is released exactly once, when its last holder lets go.",
     ["schedules", "histories"],
     "every schedule of delayed and immediate writes, overlapping reads and cycle advances",
     "status_register_test reads constants; no test lets several writes be in flight or checks that a buffer survives being written.",
     ["generic/status_register.h", "generic/control_register.h", "generic/control_register.cc"],
     [("StatusRegisterBase::SetDataBuffer", "generic/status_register.h"), ("ControlRegisterBase::SetDataBuffer", "generic/control_register.cc")],
     ["operand reads", "reference counts"])

prop("C11", "The decode cache never returns an invalidated or wrong-address instruction",
     "The instruction returned for an address is always the one the decoder produced for that address since the address was last invalidated (singly, by a range containing it, or all at once), and the decoder is asked only when no such instruction is cached. This holds also for fetches and invalidations made while the decoder is running. "
     "An instruction someone still holds stays usable after it is evicted or invalidated, each decoded instruction is released exactly once, and configurations that are not valid are refused without a crash.",
     ["histories", "configurations"],
     "every history of fetches (with conflicts), self-modifying-code invalidations, ranges at any alignment and instruction holds, for every cache geometry",
     "decode_cache_test uses one geometry and a few aligned invalidations.",
     ["generic/decode_cache.h", "generic/decode_cache.cc"],
     [("DecodeCache::GetDecodedInstruction", "generic/decode_cache.cc"), ("DecodeCache::InvalidateRange", "generic/decode_cache.cc")],
     ["returned instruction", "decoder calls", "instruction destruction"])

prop("C12", "Instruction objects run and die exactly once whatever the order of release",
     "Executing an instruction runs its semantic function exactly once with the context given, for any shape of bundles and child chains, and every instruction, operand and resource it owns is destroyed exactly once, when its last reference is dropped, in whatever order parents, children, siblings and in-flight executions let go.",
     ["schedules", "histories"],
     "every tree shape, every order of attaching, detaching, delayed execution and releasing",
     "instruction_test builds one chain and releases the root; children outliving parents and executions in flight across release are not sampled.",
     ["generic/instruction.h", "generic/instruction.cc", "generic/ref_count.h"],
     [("Instruction::~Instruction", "generic/instruction.cc"), ("Instruction::Append/AppendChild", "generic/instruction.cc")],
     ["semantic function calls", "destruction count"])

prop("C13", "Breakpoints and action points match target memory even when writes fail",
     "At every moment target memory holds the breakpoint instruction at exactly those addresses with at least one enabled action, and the original instruction everywhere else, even when a memory access by the manager fails: a failed set, enable, disable or clear reports an error and leaves the action points, the breakpoint list and memory mutually consistent, so that it can be retried; clearing everything, which cannot report an error, keeps what it could not restore. "
     "When an address is hit exactly the enabled actions there run once each, including when an action sets or clears action points at that address, and unknown addresses or identifiers are refused harmlessly.",
     ["histories", "fault_sequences"],
     "every history of set/clear/enable/disable on overlapping addresses, with target-memory failures at any access and hits in between",
     "Tests use a memory interface that never fails and never re-enter from an action.",
     ["generic/action_point_manager_base.h", "generic/action_point_manager_base.cc", "generic/breakpoint_manager.h", "generic/breakpoint_manager.cc"],
     [("ActionPointManagerBase", "generic/action_point_manager_base.cc"), ("BreakpointManager", "generic/breakpoint_manager.cc")],
     ["target memory contents", "returned statuses", "actions performed"])

prop("C14", "Simulated memory is last-write-wins, and each load completes once, on time",
     "For each of the memory models every byte read equals the last byte stored to that address (zero, or the fill value, if none), for scalar, unit-stride and scattered accesses of any size, alignment and mask, and stores change no other byte. "
     "A load with an instruction attached completes it exactly once, immediately or exactly after the requested latency, with the data as of the load, even if the caller drops its references before completion. This covers every access inside the configured range, including those at its edges.",
     ["schedules", "histories", "inputs"],
     "every interleaving of loads and stores from several initiators with arbitrary latencies, sizes, masks and addresses across block boundaries and at the edges of the range",
     "Each memory test issues a few aligned accesses at fixed addresses with latency zero.",
     ["util/memory/flat_memory.cc", "util/memory/flat_demand_memory.cc", "util/memory/tagged_flat_demand_memory.cc", "util/memory/tagged_to_untagged_memory_transactor.cc"],
     [("FlatDemandMemory::LoadStoreHelper", "util/memory/flat_demand_memory.cc"), ("FlatMemory::Load/Store", "util/memory/flat_memory.cc")],
     ["loaded data", "completion cycle", "reference counts"])

prop("C15", "A memory tag survives only stores that set it; any other store clears it",
     "In tagged memory the tag of a granule reads as set exactly when the last store that touched any byte of the granule was a tagged store that set it; every untagged store, scalar, unit-stride or scattered, clears the tags of exactly the granules it writes. "
     "A tagged access that is not made of whole granules with one tag each is refused and changes nothing. Data and tags loaded together belong to the same state of memory, and wrappers that add behaviour (watchers, atomics) pass tags through unchanged.",
     ["schedules", "histories", "inputs"],
     "every history of tagged and untagged stores of any size, mask and address and of data, tag-only and combined loads, through the memory and each wrapper",
     "Tests store one granule and check one clear; masked vector stores and multi-granule overlaps are not sampled.",
     ["util/memory/tagged_flat_demand_memory.cc", "util/memory/atomic_tagged_memory.cc", "util/memory/tagged_memory_watcher.cc", "util/memory/tagged_to_untagged_memory_transactor.cc"],
     [("TaggedFlatDemandMemory::Store", "util/memory/tagged_flat_demand_memory.cc")],
     ["tag buffers returned by loads"])

prop("C16", "Store-conditional succeeds only if nothing wrote the line since load-linked",
     "A store-conditional succeeds, and writes, only if a load-linked to the same location came before it and no store, atomic operation or successful store-conditional touched that location in between; otherwise it fails and memory is unchanged. "
     "Each atomic read-modify-write is indivisible: it returns the value memory held immediately before it and leaves exactly the combined value, and accesses that are not supported are refused without changing memory.",
     ["schedules", "histories"],
     "every interleaving of load-linked, store-conditional, atomics and plain scalar or vector stores by several initiators over overlapping addresses",
     "atomic_memory_test runs one initiator; no schedule interleaves an atomic or a wide store between load-linked and store-conditional.",
     ["util/memory/atomic_memory.cc", "util/memory/atomic_memory.h", "util/memory/atomic_tagged_memory.cc"],
     [("AtomicMemory::PerformMemoryOp", "util/memory/atomic_memory.cc"), ("tag store cleared by stores", "util/memory/atomic_memory.cc")],
     ["SC result values", "memory contents"])

prop("C17", "Memory watchers see every access in their range exactly once, and alter none",
     "Each scalar or masked vector element access that overlaps a registered load or store range invokes that range's callback exactly once per access with the access's own address and size, accesses outside every range invoke none, and the access itself reaches memory unchanged. A store's callbacks run once its data is in memory, a load's before the load is performed, and either may access memory itself. "
     "Ranges that overlap an existing one of the same kind, or are malformed, are refused, and clearing a range stops its callbacks and no others.",
     ["histories", "inputs"],
     "every history of setting and clearing ranges interleaved with scalar, unit-stride and scattered accesses at range edges",
     "Tests watch one range with aligned scalar accesses.",
     ["util/memory/memory_watcher.cc", "util/memory/memory_watcher.h", "util/memory/tagged_memory_watcher.cc"],
     [("MemoryWatcher::Load/Store", "util/memory/memory_watcher.cc")],
     ["callback invocations", "forwarded accesses"])

prop("C18", "Routers deliver each access to the one target that owns its addresses",
     "An access whose every byte lies inside one mapped range is delivered exactly once, unmodified, to the target mapped there; an access that lies wholly outside every mapped range goes to the default target if there is one; an access straddling the edge of a mapped range, or with no target, is delivered to none. "
     "A mapping is accepted if and only if it is well formed and overlaps no existing mapping of the same router view, and adding mappings never changes where already mapped addresses go.",
     ["configurations", "histories", "inputs"],
     "every sequence of mappings and every scalar, tagged, vector and atomic access including those at range edges and spanning adjacent ranges",
     "Router tests access the middle of ranges; edge bytes and vectors that span targets are not sampled.",
     ["util/memory/single_initiator_router.cc", "util/memory/single_initiator_router.h", "util/memory/memory_router.cc"],
     [("SingleInitiatorRouter::AddTarget/Load/Store", "util/memory/single_initiator_router.cc"), ("MemoryRouter", "util/memory/memory_router.cc")],
     ["accesses observed at recording targets"])

prop("C19", "A cache model never alters data or timing and counts hits and misses exactly",
     "Placing a cache model in front of a memory changes no loaded or stored value or tag, completes each load exactly once after its requested latency, and leaks nothing. "
     "Its counters match a set-associative, least-recently-used cache of the configured geometry: for every block touched exactly one of hit, miss or non-cacheable is counted, write-around and dirty write-backs are counted when and only when they occur, and invalid configurations are refused.",
     ["histories", "schedules", "configurations"],
     "every geometry and access history (any size, alignment, vector mask, cacheable ranges) with time advancing between accesses",
     "cache_test uses a few fixed patterns; associativity with evictions of dirty lines, latency and tagged paths are not sampled.",
     ["util/memory/cache.cc", "util/memory/cache.h"],
     [("Cache::CacheLookup/ReplaceBlock", "util/memory/cache.cc"), ("Cache::LoadChild", "util/memory/cache.cc")],
     ["counter values", "loaded data", "completion cycle"])

prop("C20", "The memory-use profile marks exactly the words that were accessed",
     "After any history of accesses while profiling is enabled, the profile written out names exactly the 4-byte words touched by loads and stores of up to 8 bytes (per vector element) as maximal contiguous ranges in address order, each word once, regardless of access alignment, vector form or how accesses are interleaved; accesses made while disabled leave no mark, and profiling never changes the access.",
     ["histories", "inputs"],
     "every history of scalar and vector loads and stores with enabling toggled in between",
     "Tests touch a handful of aligned words in one segment.",
     ["util/memory/memory_use_profiler.cc", "util/memory/memory_use_profiler.h"],
     [("MemoryUseTracker::MarkUsed/WriteUseProfile", "util/memory/memory_use_profiler.cc")],
     ["WriteProfile output", "forwarded accesses"])

prop("C21", "The GDB link loses, duplicates or garbles no packet under any stream fault",
     "However the byte stream is cut, delayed, corrupted, duplicated or interrupted, the server executes each well-formed command packet exactly once, answers it with exactly one well-formed response whose escaping and checksum let the client recover the exact payload, acknowledges good and rejects bad checksums, and retransmits the same response when it is not acknowledged until the retry limit. "
     "Malformed, oversized or truncated input, failed reads and writes, and disconnection at any byte never crash the server, never execute a command that was not sent intact, and end the session within a bounded number of steps with its sockets closed once.",
     ["fault_sequences", "schedules", "inputs"],
     "every sequence of packets and every stream fault (short reads, corruption, nak, lost ack, EOF or error at any byte, failed socket calls)",
     "gdbserver_test sends one well-formed packet at a time over a real socket; no fault, bad checksum, split or lost byte is ever seen.",
     ["util/gdbserver/gdbserver.cc", "util/gdbserver/gdbserver.h"],
     [("GdbServer::ReceivePacket/Respond/UnescapeCommand", "util/gdbserver/gdbserver.cc"), ("GdbSocketStreambuf", "util/gdbserver/gdbserver.cc")],
     ["bytes on the simulated socket", "calls on the core debug interface", "descriptor table"])

prop("C22", "Each GDB command acts on the simulated core as the debugger was told",
     "For every session the reply to each register, memory, breakpoint, watchpoint, step, continue and query command reflects what happened at the core debug interface: data read is what the core returned, data written is exactly what the client sent, success is reported only if the core call succeeded, and a failing core call yields an error reply and leaves the session usable. "
     "Setting then removing a breakpoint or watchpoint of any supported kind restores the core to where it was, stop replies name the actual halt reason, and malformed commands get an error or empty reply without touching the core.",
     ["histories", "fault_sequences", "inputs"],
     "every sequence of commands over one or more cores whose debug interface calls may fail at any point",
     "gdbserver_test covers one successful use of a dozen commands against one mock core; no core call fails, no sequence, no malformed command.",
     ["util/gdbserver/gdbserver.cc"],
     [("GdbServer::Gdb* handlers", "util/gdbserver/gdbserver.cc")],
     ["core debug interface calls", "reply payloads"])

prop("C23", "Renode and CLI share the core: one at a time, no step lost, no deadlock",
     "However the Renode thread and the command-line thread are scheduled, core operations issued on behalf of the two never overlap except for a halt request, every step the core executes is credited exactly once to the Renode step request it ran under, and a Renode step request never executes more steps than asked. "
     "A halted CLI stops Renode from stepping until the CLI runs, steps or disconnects, a breakpoint halt hands control to the CLI without losing the remainder of the Renode request, and with no further faults every request completes within a bounded number of scheduling steps.",
     ["schedules", "fault_sequences"],
     "every interleaving of Renode and CLI requests, connects and disconnects, core halts and failing core calls",
     "There is no test of this class, and a threaded test would see whatever interleaving the host gives.",
     ["util/renode/renode_cli_top.h", "util/renode/renode_cli_top.cc", "util/renode/cli_forwarder.cc"],
     [("RenodeCLITop::RenodeStep/CLIStep/DoWhenInControl", "util/renode/renode_cli_top.cc"), ("run_control_mutex_", "util/renode/renode_cli_top.h")],
     ["core debug interface calls", "returned step counts"])

prop("C24", "The socket CLI starts, serves and shuts down cleanly under any I/O fault",
     "For every outcome of its socket calls and every moment of connection, disconnection and destruction, the socket CLI is good exactly when its set-up succeeded (until its session ends), reports connected exactly while its shell is being served, passes every byte the client sends to the shell and every byte the shell writes to the client unaltered and in order (except the documented newline translation), and treats a failed read as end of input. "
     "Destroying it at any moment ends its thread within a bounded number of steps, and every descriptor it opened is closed exactly once and never used afterwards.",
     ["schedules", "fault_sequences", "crash_points"],
     "every interleaving of the CLI thread, the client and the destructor, with any socket call failing, returning short or being interrupted",
     "There is no test of this class, and real sockets follow the success path only.",
     ["util/renode/socket_cli.cc", "util/renode/socket_cli.h", "util/renode/socket_streambuf.h"],
     [("SocketCLI", "util/renode/socket_cli.cc"), ("SocketStreambuf", "util/renode/socket_streambuf.h")],
     ["simulated socket layer", "connection callback", "shell input and output"])

prop("C25", "The Renode bridge reports exactly what the simulated core did",
     "Through the Renode C interface a step request returns exactly the number of instructions the core executed and the status matching why it stopped, memory and register access return exactly what the core or the bus callback delivered, and loading an image writes exactly the file's bytes at the address or reports failure. "
     "Instances are independent: each id refers to the core it was created or connected for until destroyed, never to another, and calls on unknown ids fail without effect, even when core calls, bus callbacks or file reads fail or come up short.",
     ["histories", "fault_sequences"],
     "every history of construct, connect, destruct and calls over several instances, with core errors, short bus transfers and file errors injected",
     "There is no test of the Renode entry points.",
     ["util/renode/renode_mpact.cc", "util/renode/renode_mpact.h", "util/renode/renode_memory_access.cc"],
     [("RenodeAgent", "util/renode/renode_mpact.cc"), ("RenodeMemoryAccess", "util/renode/renode_memory_access.cc")],
     ["return values", "core and callback calls"])

prop("C26", "The UART emits each transmitted byte once, in order, only when not latched",
     "Each word written to the transmit register while the divisor latch is off emits exactly its low byte to the output stream, in order, and nothing else ever emits anything; configuration registers read back what was last written to them under the latch setting in force (zero if nothing was), and every other register reads zero. "
     "Loads complete exactly once at the requested latency, and misaligned or odd-sized accesses read zero and write nothing.",
     ["histories", "schedules", "fault_sequences"],
     "every history of register accesses of any size and latency, including while the output stream fails",
     "simple_uart_test writes one string.",
     ["util/other/simple_uart.cc", "util/other/simple_uart.h"],
     [("SimpleUart::Read/Write", "util/other/simple_uart.cc")],
     ["output stream", "load completions"])

prop("C27", "Counters and their listeners agree after every history of updates",
     "A counter's value is exactly the result of the updates applied while it was enabled, every listener receives every new value in order exactly once and is consistent with it, and updates while disabled are ignored. "
     "Exporting a component tree reports the current value of every counter and importing configuration applies exactly the entries present, whether through the tree or entry by entry; entries that do not match are refused and change nothing.",
     ["histories"],
     "every history of increments, sets, enable/disable, listener attachment and export over a component tree",
     "Tests update each counter once or twice.",
     ["generic/counters.h", "generic/counters_base.h", "generic/component.cc", "generic/component.h", "generic/config.h"],
     [("SimpleCounter/FunctionCounter", "generic/counters.h"), ("Component::Export/Import", "generic/component.cc")],
     ["GetValue", "listener calls", "exported proto"])

prop("C28", "A program load writes exactly the file's segments or reports failure",
     "Loading a program writes exactly the loadable segment bytes at their addresses to the memory chosen for them and nothing else, and returns the entry point; if the file cannot be read or any write fails or is short, the load reports an error. "
     "Symbol and function lookups answer for the loaded file only, and loading for symbols writes nothing.",
     ["fault_sequences", "inputs"],
     "every set of segments and symbols, with file errors and failing or short memory writes at any segment",
     "The loader tests use one fixed executable and memories that never fail.",
     ["util/program_loader/elf_program_loader.cc", "util/program_loader/elf_program_loader.h"],
     [("ElfProgramLoader::LoadProgram", "util/program_loader/elf_program_loader.cc")],
     ["memory writes", "returned status"])

prop("C29", "The instruction profile counts every executed instruction in its own bucket",
     "Once a profiler has been given the loaded program, every value its counter passes on that lies in an executable segment of the program adds exactly one to the count of the granule that holds it, first and last granule of every segment included, and changes no other count; a value outside every such segment is counted for its own granule or not at all, and values passed on before there is a program are ignored. "
     "The profile written out at any time lists exactly the granules with a count, each once, in address order, with that count, and sampling or writing never touches memory the profiler does not own.",
     ["histories", "inputs"],
     "every layout of executable segments, granularity, and history of program counter values, program loads that fail, and the program being set early or late",
     "There is no test of the profiler.",
     ["util/other/instruction_profiler.cc", "util/other/instruction_profiler.h"],
     [("InstructionProfiler::SetValue/AddSampleInternal", "util/other/instruction_profiler.cc"), ("InstructionProfiler::SetElfLoader", "util/other/instruction_profiler.cc"), ("InstructionProfiler::WriteProfile", "util/other/instruction_profiler.cc")],
     ["written profile", "memory safety"])

prop("C30", "A core built from the library computes what its program says, on time",
     "Take a core assembled from the library's parts the documented way: instructions fetched through a decode cache, issued in order once the resources they hold are free and acquiring the ones they will write, operands reading scalar and vector registers, literals and FIFOs, results written after their latency, loads and gathers completing after theirs through any stack of memory layers, atomics and load-linked/store-conditional on top. For every program, latency assignment, reservation of functional units, device traffic, stall and debugger activity (breakpoints, actions, memory changes, flushed decodings, self-modifying code) it ends with the registers, memory and messages of executing the program one instruction at a time. "
     "No instruction issues while something it reads or writes is pending, and each issues in the first cycle in which nothing it needs is; every register shows each result from exactly its cycle; every enabled action runs once each time its address is reached; the core never gets stuck.",
     ["schedules", "histories"],
     "every program, configuration of the parts and interleaving of core, devices and debugger",
     "Tests exercise the parts one at a time; this is about what they do together.",
     ["generic/arch_state.h", "generic/instruction.h", "generic/register.h", "generic/simple_resource_operand.h", "generic/complex_resource.h", "generic/decode_cache.h", "generic/fifo.h", "util/memory/memory_interface.h"],
     [("ArchState::AdvanceDelayLines", "generic/arch_state.h"), ("DecodeCache::GetDecodedInstruction", "generic/decode_cache.cc"), ("SimpleResourceOperand::Acquire", "generic/simple_resource_operand.h"), ("RegisterDestinationOperand", "generic/register.h")],
     ["operand values read by each instruction", "cycle of each issue", "register and memory contents", "messages", "actions run"])

prop("C31", "The log monitor counts every message once, whichever threads log it",
     "However many threads log at once and however they are scheduled, the log monitor counts every message sent to it exactly once under its own severity, and keeps the text of each warning or worse exactly once, in the order the messages arrived. "
     "Every count read (single or of all that are warnings or worse) is one the monitor had at a moment during the reading, entries read while others log are a consistent part of those kept, and a reset sets all counts to zero at one moment and nothing else.",
     ["schedules"],
     "every interleaving of threads that log, read and reset, down to single memory accesses",
     "Nothing tests the monitor from more than one thread.",
     ["util/other/log_sink.h"],
     [("LogSink::Send", "util/other/log_sink.h"), ("LogSink::Reset", "util/other/log_sink.h"), ("LogSink::NumOops/oops_entries", "util/other/log_sink.h")],
     ["counts read", "entries read"])

# Not claimed: pure functions of their input.
prop("N01", "Bit-field extraction and insertion recipes agree with the format definition",
     "For every instruction format and bit pattern, the extracted field or overlay value equals the one defined by the format description.",
     ["inputs"], "every format and encoding", "Only a handful of formats are in the tests.",
     ["decoder/extract.cc", "decoder/extract.h", "decoder/overlay.cc"], [("ExtractionRecipe", "decoder/extract.cc")], ["return values"])
prop("N02", "Generated decoders select the unique matching instruction for every encoding",
     "For every valid .isa/.bin_fmt description and every instruction word, the generated decoder returns the one instruction whose constraints the word satisfies, or reports none.",
     ["programs", "inputs"], "every description and every instruction word", "Golden files cover a few descriptions.",
     ["decoder/bin_format_visitor.cc", "decoder/encoding_group.cc", "decoder/instruction_set_visitor.cc"], [("EncodingGroup", "decoder/encoding_group.cc")], ["generated code"])
prop("N03", "Template expressions evaluate as integer arithmetic or report an error",
     "For every expression tree and parameter binding, evaluation yields the arithmetic value or an error for undefined operations.",
     ["inputs"], "every expression and binding", "Tests have one case per operator.",
     ["decoder/template_expression.cc"], [("TemplateExpression", "decoder/template_expression.cc")], ["return values"])
prop("N04", "Assembler output encodes exactly the source program",
     "For every source text accepted by the simple assembler the emitted object holds exactly the encoded bytes, symbols and relocations of the program.",
     ["inputs", "programs"], "every source text", "A few sources are tested.",
     ["util/asm/simple_assembler.cc", "util/asm/resolver.cc"], [("SimpleAssembler", "util/asm/simple_assembler.cc")], ["ELF output"])
prop("N05", "Operand value conversions preserve the value where representable",
     "Immediate, literal and wrapped operands return the stored value converted to the requested type for every value and index.",
     ["inputs"], "every value and type", "Tests sample single values.",
     ["generic/immediate_operand.h", "generic/literal_operand.h", "generic/type_helpers.h"], [("AsInt*/AsUint*", "generic/immediate_operand.h")], ["return values"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
