#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

EX = "src/instructions/execute.rs"; ASM = "src/machine/asm/execute_x64.S"; ASMRS = "src/machine/asm/mod.rs"
p("C01", "64-bit base, multiply and compressed instructions follow the RISC-V ISA",
  "Executing any RV64 I, M or C instruction from any register, memory and program-counter state leaves exactly the registers, memory bytes and next program counter the RISC-V unprivileged specification prescribes, in every execution engine the VM offers. Register x0 always reads as zero, 32-bit (W) results are sign-extended, and division and shift corner cases (divide by zero, signed overflow, oversized shift amounts, misaligned data) have their specified results.",
  ["inputs", "programs", "configurations"],
  "all instruction encodings, all operand values and register aliasings, all engines (interpreter, cached-trace interpreter, assembly with each trace decoder) and memory back ends",
  "Tests run a few dozen compiled programs and a handful of hand-picked operands; the operand space is 2^128 per instruction, times register aliasing, times engines.",
  [EX, "src/instructions/common.rs", "src/instructions/register.rs", "src/instructions/i.rs", "src/instructions/m.rs", "src/instructions/rvc.rs", ASM],
  [("one handler per opcode in Rust", EX), ("hand-written assembly per opcode", ASM), ("immediate extraction", "src/instructions/utils.rs"), ("overflow-aware arithmetic on the register type", "src/instructions/register.rs")],
  [("registers", "32 general registers, x0 pinned to zero", "src/machine/mod.rs DefaultCoreMachine.registers / definitions/src/asm.rs AsmCoreMachine.registers"), ("pc", "program counter, committed after each instruction", "src/machine/mod.rs")],
  ["final registers, pc, memory bytes and exit status after running a program from a chosen state"])
p("C02", "Atomic instructions and load reservations follow the A extension",
  "Each AMO returns the old (sign-extended) memory value and stores the specified combination as one step, and a store-conditional succeeds (writes memory, returns 0) exactly when a still-valid reservation made by a load-reserved covers its address, otherwise returns 1 and leaves memory unchanged; every store-conditional ends the reservation. This holds for the word and double-word forms, for every aliasing of the three registers, and in every engine, and the instructions are available only when the A extension is enabled.",
  ["inputs", "programs", "histories"],
  "all A-extension encodings, operand values, register aliasings, interleavings of LR/SC/AMO/stores/resets, all engines",
  "The tests check one program per scenario; reservation validity depends on the history of LR/SC/AMO/reset operations and on register aliasing.",
  [EX, "src/instructions/a.rs", ASM, "src/machine/mod.rs"],
  [("reservation address register", "src/machine/mod.rs lr()/set_lr()"), ("LR/SC/AMO handlers", EX), ("assembly LR/SC/AMO", ASM)],
  [("load reservation address", "address reserved by the last LR, all-ones when none", "src/machine/mod.rs, definitions/src/asm.rs")],
  ["registers, memory, reservation after each program"])
p("C03", "Bit-manipulation instructions follow the Zba/Zbb/Zbc/Zbs specification",
  "Executing any Zba, Zbb, Zbc or Zbs instruction from any operand values yields the result given by the RISC-V bit-manipulation specification, for word and double-word forms and in every engine. With the B extension disabled the same encodings are rejected as invalid instructions.",
  ["inputs", "programs", "configurations"], "all B encodings, all operand values, all register aliasings, all engines",
  "Tests use sampled operands per instruction; the reference is 2^64..2^128 operands per instruction, and Rust and assembly have separate implementations.",
  [EX, "src/instructions/b.rs", "src/bits.rs", "src/instructions/register.rs", ASM],
  [("B handlers", EX), ("carry-less multiply, rotate, or-combine helpers", "src/instructions/register.rs"), ("assembly B handlers", ASM)], None, ["final registers"])
p("C04", "The 32-bit machine follows RV32 semantics",
  "A machine built with 32-bit registers decodes and executes RV32 instructions with 32-bit wraparound, 5-bit shift amounts, RV32-only compressed forms, and 32-bit widening, division and bit-manipulation results; RV64-only encodings are rejected as invalid. (Bit-manipulation immediates and rev8 use the RV64 encodings, and zext.h is RV64-only, in this VM.) No result depends on bits above bit 31.",
  ["inputs", "programs"], "all RV32 encodings and operands, interpreter and cached-trace interpreter",
  "Only a few compiled RV32 programs are tested; nearly every handler and register operation has a separate 32-bit path.",
  ["src/instructions/register.rs", EX, "src/instructions/i.rs", "src/instructions/rvc.rs", "src/instructions/b.rs", "src/instructions/a.rs"],
  [("u32 implementation of the register trait", "src/instructions/register.rs"), ("bit-width dependent decoding", "src/instructions/rvc.rs")], None, ["final registers, pc, exit status"])
p("C05", "Instruction fetch and decode accept exactly the enabled instruction set",
  "For every fetch address and every bytes found there, decoding yields the one instruction the ISA and the enabled extensions and VM version define for those bits (with the right length, operands and immediate), or fails with an invalid-instruction error naming that address and those bits. The outcome depends only on the bytes at that address - not on position within a page, on previously fetched instructions, or on other instructions sharing internal caches.",
  ["inputs", "histories", "configurations"],
  "all 2^16 compressed words, all 32-bit words, all even addresses including the last two bytes of a page and of memory, all extension/version combinations, all fetch histories",
  "Tests decode what compilers emit plus a few crash regressions; most of the encoding space, page-straddling fetches and cache collisions are never visited.",
  ["src/decoder.rs", "src/instructions/i.rs", "src/instructions/m.rs", "src/instructions/rvc.rs", "src/instructions/a.rs", "src/instructions/b.rs", "src/instructions/utils.rs"],
  [("factory chain", "src/decoder.rs decode_raw"), ("page-end split fetch", "src/decoder.rs decode_bits"), ("instruction cache tagged with the full address", "src/decoder.rs")],
  [("instruction cache", "4096 direct-mapped decoded instructions", "src/decoder.rs")], ["behaviour of a program containing the bytes; error value"])
p("C06", "All execution engines and memory back ends give the same outcome",
  "Running the same program with the same arguments, version, extensions and cycle limit gives the same outcome - exit code or error kind, consumed cycles on normal exit, registers and memory contents on normal exit - whether it is interpreted, trace-cached, stepped, or run in the assembly engine with any trace decoder, and over flat, sparse or assembly-managed memory. Loops, jumps into the middle of previously executed code, and programs large enough to collide in trace caches do not change the outcome. (Left open: register and memory contents after an error in an engine that charges and decodes whole blocks, which error is reported when several apply to one block or access, and versions 0 and 1 at addresses beyond 4 GiB.)",
  ["programs", "configurations", "histories"],
  "all programs and control-flow histories, all pairs of engines/memories/trace decoders",
  "Tests run the same few compiled binaries on a few engines; agreement must hold for every control-flow pattern (trace splitting at 16 instructions, slot collisions, cached trace chaining).",
  ["src/machine/mod.rs", "src/machine/trace.rs", ASMRS, "src/machine/asm/traces.rs", ASM],
  [("interpreter loop", "src/machine/mod.rs"), ("trace cache", "src/machine/trace.rs"), ("assembly trace decoders", "src/machine/asm/traces.rs")],
  [("trace slots", "direct-mapped 8192 decoded traces", "src/machine/trace.rs, src/machine/asm/traces.rs")], ["exit status, cycles, registers, memory"])
p("C07", "Macro-operation fusion never changes program results",
  "Enabling macro-operation fusion leaves every program's exit code, errors, final registers and memory exactly as when the fused instructions execute one by one (version 1 keeps its published far-jump rule), for every register aliasing, operand value and immediate, whether or not a jump enters the middle of a fused sequence. Only the number of cycles charged may differ.",
  ["programs", "inputs", "configurations"],
  "all instruction sequences that match or nearly match a fusion pattern, all operand values, versions 1 and 2, all engines",
  "Fusion correctness depends on register aliasing among up to five instructions (32^8 assignments) and on 64-bit operands; tests cover a few dozen sequences.",
  ["src/decoder.rs", EX, ASM], [("pattern rules with aliasing side conditions", "src/decoder.rs decode_mop, rule_*"), ("fused handlers", EX)], None,
  ["final registers and exit status with and without fusion"])
p("C08", "W^X: code is never writable and data is never executed",
  "No guest store, atomic or host copy-in ever changes a byte of a page that is currently executable, and no instruction is ever fetched from a page that is not executable; each attempt fails with a write-on-executable-page error naming the page, before any byte of it changes. This holds for accesses of every width and alignment, including ones straddling two pages, after any history of flag changes, earlier accesses and earlier errors, and on every memory back end, as long as the host takes the executable mark from no page that has been executed since the last reset.",
  ["programs", "inputs", "histories"],
  "all access widths, addresses, page-flag configurations, orders of accesses and flag changes, all engines and memories",
  "The assembly engine caches the last written page, so the check can only be decided over access histories; tests make single accesses.",
  ["src/memory/wxorx.rs", "src/memory/mod.rs", ASMRS, ASM, "src/decoder.rs"],
  [("permission check before access", "src/memory/mod.rs check_permission"), ("write check with last-page cache", ASM + " CHECK_WRITE"), ("flags per page", "src/memory/*.rs")],
  [("page flags", "frozen/executable/dirty per page", "src/memory/flat.rs, src/memory/sparse.rs, definitions/src/asm.rs"), ("last write page", "most recent page that passed the write check", "definitions/src/asm.rs")],
  ["error value, page flags, memory bytes after each access"])
p("C09", "Page initialisation respects alignment, bounds and frozen pages",
  "Initialising a range of pages succeeds only when the address and size are page-aligned, the range and the data fit, and no page in it is frozen; it then sets each page's flags, places the data at the requested offset and zero-fills the remainder of the range. Otherwise it reports the matching error and changes neither contents nor flags of any page.",
  ["inputs", "histories"], "all (address, size, flags, data, offset) requests, all prior page states, all memory back ends",
  "Tests load well-formed binaries; error combinations, overlapping segments and re-initialisation orders are not enumerated.",
  ["src/memory/mod.rs", "src/memory/flat.rs", "src/memory/sparse.rs", "src/memory/wxorx.rs", ASMRS, "src/elf.rs"],
  [("alignment, bound and frozen checks", "src/memory/wxorx.rs init_pages, " + ASMRS), ("fill", "src/memory/mod.rs fill_page_data")], [("page flags", "frozen bit", "src/memory")], ["result value, flags, bytes"])
p("C10", "No access ever leaves the configured guest memory",
  "Every guest or host access (load, store, fetch, copy in or out, flag query) whose range is not entirely inside the configured memory size fails with an out-of-bound error and changes nothing; every access entirely inside, including one ending at the last byte, is never rejected for bounds. This holds for address arithmetic that wraps around 64 bits, for every configured memory size, and in every engine.",
  ["inputs", "programs", "configurations"],
  "all addresses near 0, near the memory end, near 2^32 and 2^64, all widths and lengths, all engines, memory sizes",
  "A finite set of tests touches a few addresses; the guarantee protects host memory (the assembly engine writes raw pointers) for all 2^64 addresses.",
  ["src/memory/mod.rs", "src/memory/flat.rs", "src/memory/sparse.rs", "src/memory/wxorx.rs", ASMRS, ASM, EX],
  [("range check with overflow", "src/memory/mod.rs check_no_overflow"), ("assembly CHECK_READ/CHECK_WRITE", ASM)], None, ["error value; registers, memory and neighbours unchanged"])
p("C11", "Memory behaves as one little-endian byte array",
  "Any load returns, byte by byte in little-endian order, the values most recently stored to those addresses by any mix of guest stores, atomics, host copy-ins and page initialisations of any width and alignment (zero where nothing was stored); a write changes no other byte. All memory back ends agree, and bulk helpers (copy-out, fill, string reads) see the same bytes.",
  ["histories", "inputs"], "all sequences of reads and writes of all widths/alignments/lengths across page and frame boundaries, all back ends",
  "Coherence is a statement about histories of accesses; tests check single round trips.",
  ["src/memory/mod.rs", "src/memory/flat.rs", "src/memory/sparse.rs", "src/memory/wxorx.rs", ASMRS, ASM],
  [("sparse page allocation", "src/memory/sparse.rs"), ("lazy frame initialisation", ASMRS), ("byte copies", "src/memory/flat.rs")], [("page table / frames", "allocated pages, initialised frames", "src/memory/sparse.rs, " + ASMRS)], ["loaded values, bytes"])
p("C12", "Every modified page is marked dirty, and only flag operations clear it",
  "After any history of guest stores, atomics and host copy-ins or fills, every page whose bytes may have changed since its dirty mark was last cleared carries the dirty mark, and pages that were not the target of a write do not. Marks persist until explicitly cleared or the machine is reset, and writing does not disturb other page flags.",
  ["histories", "programs"], "all write instructions and host writes, all page-straddling cases, all histories of clearing marks, all engines/back ends",
  "Snapshots silently lose data if any one of ~40 write paths misses the mark; tests only check complete snapshots of a few programs.",
  ["src/memory/flat.rs", "src/memory/sparse.rs", "src/memory/wxorx.rs", ASMRS, ASM],
  [("set dirty on write", "src/memory/mod.rs set_dirty, " + ASM + " CHECK_WRITE")], [("dirty flag", "page changed since cleared", "src/memory")], ["page flags after each write"])
p("C13", "Cycle metering is exact and the limit is never exceeded",
  "The cycles consumed by a run equal the sum of the cost function over the instructions executed plus explicit additions, identically in every engine; a program whose total stays within the limit (including exactly at it) is never stopped, and one needing more fails with a cycles-exceeded error instead of completing. Cost additions that would overflow are reported as overflow, never wrapped, and the built-in cost estimate assigns each instruction its documented cost.",
  ["programs", "configurations"], "all programs, all cost functions, all limits including exactly-equal and off-by-one, all engines, cycles added by syscalls",
  "Consensus depends on exact cycle counts for every program; tests pin the totals of a few binaries.",
  ["src/machine/mod.rs", "src/machine/trace.rs", ASMRS, "src/machine/asm/traces.rs", ASM, "src/cost_model.rs"],
  [("charge before execution", "src/machine/mod.rs add_cycles"), ("per-trace charge", ASM), ("estimate", "src/cost_model.rs")], [("cycles / max cycles", "consumed and allowed", "src/machine/mod.rs")], ["cycles(), result"])
p("C14", "System calls, breakpoints and exit are dispatched as specified",
  "An environment call with number 93 stops the machine with the low 8 bits of the first argument register as signed exit code; any other number is offered to the registered handlers in order until one accepts it, its register, memory, cycle and error effects being applied, and fails with an invalid-call error naming the number if none does. A breakpoint invokes the debugger if present and otherwise does nothing; handlers are initialised once when the run starts being set up, and execution resumes at the following instruction.",
  ["programs", "histories", "configurations"], "all call numbers, handler lists, handler outcomes, positions of the call in code, all engines",
  "Depends on every combination of handlers, outcomes and engine paths (fused, traced, stepped); tests have one handler scenario per file.",
  ["src/machine/mod.rs", ASMRS, "src/machine/trace.rs", EX, "src/syscalls/mod.rs", "src/debugger.rs"],
  [("ecall dispatch", "src/machine/mod.rs ecall"), ("handler trait", "src/syscalls/mod.rs")], None, ["exit code, error, handler invocations, registers"])
p("C15", "Pausing and resuming never changes a program's result",
  "If a run is interrupted by a pause signal at any moment, it returns a pause status with the machine in a consistent state between instructions, the signal is consumed, and running again continues to exactly the same exit code, cycles, registers and memory as an uninterrupted run. Without a signal a run never reports pause, and a signal that has been raised is acted upon before an unbounded amount of further execution.",
  ["schedules", "programs"], "all moments at which the signal is raised (before start, from syscalls, from another thread), repeated pauses, all engines",
  "The schedule of the signal relative to execution is unbounded; tests raise it at one or two points.",
  ["src/machine/mod.rs", "src/machine/trace.rs", ASMRS, ASM], [("shared pause flag polled per step/trace", "src/machine/mod.rs Pause"), (".prepare_trace poll", ASM)], [("pause flag", "shared atomic", "src/machine/mod.rs")], ["run() results, final state"])
p("C16", "ELF programs are loaded exactly as their segments prescribe",
  "Loading a valid ELF file makes each loadable segment's file bytes appear at its virtual address with the rest of its pages zero, gives each page the permission its segment flags prescribe (executable pages and read-only pages frozen, writable not executable), and starts at the entry address; the returned byte count is that of the loaded content plus the stack initialisation. Malformed files - wrong class, unreadable or writable-and-executable segments, ranges outside the file or memory - are rejected with an error and are never executed.",
  ["inputs", "configurations"], "all program headers (order, overlap, offsets, sizes, flags), versions, memory sizes and back ends",
  "Tests load what the linker emits and a few crash files; the header space is unbounded and adversarial.",
  ["src/elf.rs", "src/machine/mod.rs", "src/memory/mod.rs"], [("header parsing", "src/elf.rs parse_elf"), ("loading actions", "src/machine/mod.rs load_binary")], None, ["memory bytes, page flags, pc, result"])
p("C17", "Program arguments and the initial stack have the specified layout",
  "After loading with any argument list that fits, the stack pointer is aligned as the version requires and points to the argument count, followed by pointers to the NUL-terminated arguments in order (and, from version 1, a null pointer), all strings lying inside the stack region above it, and a program can read each argument back unchanged. Arguments that do not fit the stack region are rejected with an error; a load that succeeds writes nothing outside the stack region apart from the program's segments.",
  ["inputs", "configurations"], "all argument counts and lengths (including zero, and exactly filling the stack), stack regions, versions, engines",
  "Tests pass a few short arguments; alignment and boundary behaviour depends on every length combination.",
  ["src/machine/mod.rs", ASMRS], [("initialize_stack", "src/machine/mod.rs")], [("sp", "x2", "src/machine/mod.rs")], ["sp, memory, result"])
p("C18", "Full-state snapshots restore the complete machine state",
  "Taking a snapshot of a machine at any point and resuming it on a freshly built machine of the same configuration (of any engine) yields the same registers, program counter, reservation, memory contents and page flags, so continuing gives the same outcome as the original. A snapshot of another version's machine, or whose page lists are inconsistent or lie outside the memory, is rejected with an error.",
  ["crash_points", "programs", "histories"], "all programs, all interruption points, all memory write histories, all engines",
  "The snapshot point and prior write history are arbitrary; tests snapshot a few programs at a few cycle counts.",
  ["src/snapshot.rs", "src/machine/mod.rs"], [("dirty page collection", "src/snapshot.rs make_snapshot"), ("restore", "src/snapshot.rs resume")], [("snapshot", "version, registers, pc, dirty pages and flags, reservation", "src/snapshot.rs")], ["registers, memory, flags, final outcome"])
p("C19", "Incremental snapshots reproduce memory, flags and data-source tracking",
  "For any history of program loading, tracked copies from a data source, untracking, and ordinary writes, a version-2 snapshot resumed on a fresh machine reproduces registers, program counter, reservation, cycle counts, all memory bytes and page flags, and continued execution gives the original outcome; a second snapshot taken after resuming does so as well. Pages are recorded by reference to the data source only while their contents still equal it; a data source that no longer provides the bytes, malformed page data, or a version mismatch, is an error.",
  ["histories", "crash_points"], "all histories of track/copy/untrack/write operations, lengths and alignments, snapshot points, chains of snapshots",
  "Correctness depends on the history of which pages are tracked, dirtied and untracked; tests have a handful of scripts.",
  ["src/snapshot2.rs", "src/machine/mod.rs"], [("tracked pages", "src/snapshot2.rs Snapshot2Context"), ("dirty page merge", "src/snapshot2.rs make_snapshot")], [("pages", "page -> data source offset and flags", "src/snapshot2.rs")], ["memory, flags, registers, cycles, snapshot contents"])
p("C20", "Reset and reload start from a clean machine; stale code is never executed",
  "Resetting a machine - directly or from a system call during a run - clears registers, program counter, memory, page flags, cycles and reservation and installs the new limit, and a program loaded afterwards behaves exactly as on a newly built machine with that limit. Code executed always is the code currently in memory: no decoded instruction, trace or access cache from before the reset influences execution.",
  ["histories", "programs"], "all pairs of programs before/after reset, all points of reset, all engines and trace decoders",
  "Stale-cache effects need specific address coincidences between old and new code; tests reset between two fixed programs.",
  ["src/machine/mod.rs", "src/machine/trace.rs", ASMRS, "src/machine/asm/traces.rs", "src/decoder.rs"],
  [("reset signal checked in the run loop", "src/machine/mod.rs reset_signal"), ("trace clearing", "src/machine/asm/traces.rs clear_traces/reset")], [("reset signal", "set by reset, consumed by the run loop", "src/machine/mod.rs")], ["outcome of the program run after reset"])
p("C21", "Untrusted programs and inputs can never crash or hang the host",
  "For any bytes offered as program, arguments, code or snapshot, loading and running return normally with a result or an error within the cycle limit: no panic, no out-of-memory access of the host, no unbounded work. The same holds when a failed machine is queried or run again.",
  ["inputs", "programs", "fault_sequences"], "all byte strings as ELF files, code, arguments; all limits; all engines; running again after errors",
  "Tests contain past crashers only; the input space is adversarial.",
  ["src/elf.rs", "src/decoder.rs", "src/memory/mod.rs", "src/machine/mod.rs", ASMRS, "src/snapshot.rs", "src/snapshot2.rs"],
  [("checked arithmetic and error returns", "src"), ("cycle limit", "src/machine/mod.rs")], None, ["process survives; result is Ok or Err"])
p("C22", "Initialised memory is independent of the host's uninitialised memory",
  "A program's outcome depends only on the program, arguments, configuration and syscalls: memory never written reads as zero, and in the debugging mode that randomises uninitialised memory every byte that was initialised by loading, copying or storing still reads back as written. Running the same program twice, or after other machines have used the same host memory, gives the same outcome.",
  ["histories", "programs", "configurations"], "all access orders that trigger lazy initialisation of a memory frame before/after writes, all frames, repeated runs",
  "Lazy frame initialisation must happen exactly once before first use on every path (each load/store/copy, guest or host); tests only cover common orders.",
  [ASMRS, ASM, "definitions/src/asm.rs"], [("frame initialisation flag per 256 KiB", ASMRS + " inited_memory"), ("check on each access", ASM)], [("frames", "initialised bit per frame", "definitions/src/asm.rs")], ["loaded values, outcome"])
p("C23", "Each VM version keeps its published behaviour",
  "A machine of version 0, 1 or 2 keeps the behaviours that distinguish that version - alignment and layout of the initial stack, treatment of loads ending at the end of memory, jump-and-link with equal registers, compressed hint encodings, segment permissions, trace address width, and which operations are fused - and versions agree on everything else. Requesting fusion on version 0 is refused.",
  ["configurations", "programs"], "all programs and inputs that touch a versioned behaviour, versions 0, 1, 2, all engines",
  "Consensus needs every old version bit-exact forever; tests compare versions on one program per quirk.",
  ["src/machine/mod.rs", "src/decoder.rs", EX, "src/instructions/rvc.rs", "src/elf.rs", ASM], [("version gates", "VERSION0/1/2 checks across src")], None, ["exit status, registers, memory per version"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
