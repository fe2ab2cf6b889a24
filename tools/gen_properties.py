#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SINGLE = "The baseline tests are single-threaded value checks with a few sampled inputs on x86_64, i686 and aarch64; "

p("C01", "Operations on natively supported widths are indivisible",
  "Every operation on an atomic bool, pointer or integer whose width the target supports natively takes effect at one instant between its call and its return: no concurrent operation is lost, seen half-done or applied twice, whichever mix of operations runs on the same object. The values returned by concurrent calls and the final contents always equal those of some one-at-a-time order of the calls that respects each thread's program order.",
  ["schedules", "inputs", "configurations"],
  "for every schedule of 2-3 threads, every pair of operations of every 8/16/32/64-bit and pointer-width type, over boundary operands, on every supported target family (compare-and-swap loops, load-reserved/store-conditional loops with any spurious failures, sub-word emulation)",
  SINGLE + "no test runs two threads, and most target families are never executed at all.",
  ["src/lib.rs", "src/imp/core_atomic.rs", "src/imp/x86.rs", "src/imp/riscv.rs", "src/imp/arm_linux.rs", "src/utils.rs"],
  [("read-modify-write loops built on compare_exchange_weak", "src/imp/core_atomic.rs"),
   ("lock-prefixed single instructions", "src/imp/x86.rs"), ("AMO and LR/SC based sub-word loops", "src/imp/riscv.rs")],
  observe=["return values of concurrent calls", "final contents of the object"])

p("C02", "Lock-free double-word operations are indivisible and never tear",
  "Where a 128-bit (on 64-bit targets) or 64-bit (on 32-bit targets) atomic is provided by CPU instructions, every operation on it is indivisible: a load never mixes halves of two different values, a store becomes visible as a whole, and no concurrent update is lost. This holds for each instruction-set level the crate may choose, at compile time or at run time, and for objects accessed through signed and unsigned views at once.",
  ["schedules", "inputs", "configurations"],
  "for every schedule, at single-instruction granularity, of 2-3 threads running any operations on one double-word object, with operands that carry and borrow between halves, on every instruction-set level, including spurious store-conditional failures",
  SINGLE + "tearing needs another CPU to write between two half accesses, and the riscv64/riscv32/powerpc64/s390x/arm code is never compiled by the tests.",
  ["src/imp/atomic128/x86_64.rs", "src/imp/atomic128/aarch64.rs", "src/imp/atomic128/powerpc64.rs", "src/imp/atomic128/s390x.rs", "src/imp/atomic128/riscv64.rs", "src/imp/atomic64/riscv32.rs", "src/imp/atomic64/arm_linux.rs", "src/imp/atomic128/macros.rs"],
  [("cmpxchg16b loops, aligned 16-byte vector moves", "src/imp/atomic128/x86_64.rs"), ("LDXP/STXP, CASP, LSE2 LDP/STP, LSE128", "src/imp/atomic128/aarch64.rs"),
   ("lqarx/stqcx., lq/stq", "src/imp/atomic128/powerpc64.rs"), ("cdsg, lpq, stpq", "src/imp/atomic128/s390x.rs"), ("amocas.q / amocas.d", "src/imp/atomic128/riscv64.rs")],
  observe=["return values of concurrent calls", "both halves of the final contents"])

p("C03", "Lock-based fallback operations are indivisible, even when objects share a lock",
  "Where the target has no instruction for the width, every operation is still indivisible with respect to all other operations on the same object, from every thread and through signed, unsigned, float or raw-pointer views. Operations on different objects never affect each other's contents, whether or not the objects happen to share an internal lock. This includes executions in which a reader overlaps any number of writers and the internal version counter is about to wrap.",
  ["schedules", "inputs", "histories", "configurations"],
  "for every schedule and every C11-allowed weak-memory behaviour of 2-3 threads running any operations on one object or on two objects with the same or different locks, starting from any version-counter value including those next to wrap-around of each word",
  SINGLE + "the fallback's optimistic reads and version counter only matter when threads overlap; the double-word counter wraps only after 2^30 or more writes.",
  ["src/imp/fallback/mod.rs", "src/imp/fallback/seq_lock.rs", "src/imp/fallback/seq_lock_wide.rs", "src/imp/fallback/seq_lock_common.rs", "src/imp/fallback/utils.rs", "src/imp/fallback/outline_atomics.rs"],
  [("global array of sequence locks indexed by address", "src/imp/fallback/mod.rs"), ("optimistic read with validation", "src/imp/fallback/seq_lock_common.rs")],
  state=[("lock state", "version counter; an odd value (1) means locked", "src/imp/fallback/seq_lock.rs"), ("wide lock state", "counter split over two words", "src/imp/fallback/seq_lock_wide.rs")],
  observe=["return values of concurrent calls", "final contents of every object"])

p("C04", "Interrupt-masking operations are indivisible and restore the interrupt state",
  "On targets without compare-and-swap, where the user has asserted a single core or supplied a critical-section implementation, every operation is indivisible with respect to interrupt handlers (or other critical-section users) that run any operations on the same object. After the operation returns, or after any nesting of operations and handlers, the interrupt-enable state is exactly what it was before the call: an operation called with interrupts disabled never enables them and vice versa.",
  ["schedules", "inputs", "configurations"],
  "for every point (each memory access and each instruction) at which an interrupt may arrive, nested up to two deep, every operation in the interrupted code and in the handler, both initial interrupt states, on Armv6-M, Armv4T (with and without FIQ masking), RISC-V (M-mode and S-mode), MSP430 and AVR, and with critical-section on several threads",
  SINGLE + "none of the interrupt-masking code is compiled, let alone interrupted, by the tests.",
  ["src/imp/interrupt/mod.rs", "src/imp/interrupt/armv6m.rs", "src/imp/interrupt/armv4t.rs", "src/imp/interrupt/riscv.rs", "src/imp/interrupt/msp430.rs", "src/imp/interrupt/avr.rs", "src/imp/msp430.rs", "src/imp/avr.rs", "src/imp/riscv.rs"],
  [("disable / restore pair around each operation", "src/imp/interrupt/mod.rs"), ("per-architecture status register access", "src/imp/interrupt/armv4t.rs")],
  observe=["values seen by interrupted code and handlers", "interrupt-enable flag after each call"])

p("C05", "Every operation computes its documented result",
  "Called without interference, every operation on every integer and bool type returns the documented value (the previous contents for the fetching forms, nothing for the plain forms, the new contents never) and leaves the documented contents: wrapping add/sub/neg, two's-complement and unsigned min/max, and/nand/or/xor/not, bit set/clear/toggle with the bit number taken modulo the width, swap, store and load. A plain form leaves exactly the contents its fetching form would, and the result does not depend on the memory ordering passed.",
  ["inputs", "histories", "configurations"],
  "for every 8-bit operand pair, every combination of boundary operands at wider widths (carries, borrows, sign changes across each word), every valid ordering, every sequence of two operations, on every implementation the crate can select",
  SINGLE + "they compare a few hand-picked values per operation, under one ordering sweep, on three architectures.",
  ["src/lib.rs", "src/imp/core_atomic.rs", "src/imp/x86.rs", "src/imp/riscv.rs", "src/imp/msp430.rs", "src/imp/avr.rs", "src/imp/fallback/mod.rs", "src/imp/interrupt/mod.rs", "src/imp/atomic128/macros.rs", "src/imp/atomic128/x86_64.rs", "src/imp/atomic128/aarch64.rs", "src/imp/atomic128/s390x.rs", "src/utils.rs"],
  [("per-implementation arithmetic, in Rust and in assembly", "src/imp"), ("bit operations derived from and/or/xor", "src/lib.rs")],
  observe=["return value", "contents after the call"])

p("C06", "Compare-exchange succeeds exactly when it should and reports the actual value",
  "A compare-exchange writes the new value if and only if the object held the expected value at the instant it took effect; it returns Ok with the expected value in that case and otherwise Err with the value it actually found, leaving the object unchanged. The strong form never fails while the contents equal the expected value; the weak form may fail spuriously but then also reports the current value and changes nothing. Any valid pair of success and failure orderings is honoured, including a failure ordering stronger than the success ordering.",
  ["schedules", "inputs", "configurations"],
  "for every schedule of compare-exchanges racing with each other and with stores, every operand pair differing in any one half or byte, every ordering pair, on every implementation",
  SINGLE + "failure needs a concurrent writer between the read and the write, or a spurious store-conditional failure, neither of which the tests can provoke.",
  ["src/lib.rs", "src/utils.rs", "src/imp/atomic128/x86_64.rs", "src/imp/atomic128/aarch64.rs", "src/imp/atomic128/powerpc64.rs", "src/imp/atomic128/s390x.rs", "src/imp/atomic128/riscv64.rs", "src/imp/riscv.rs", "src/imp/arm_linux.rs", "src/imp/fallback/mod.rs", "src/imp/interrupt/mod.rs", "src/imp/float/int.rs"],
  [("success ordering upgraded to cover the failure ordering", "src/utils.rs"), ("LL/SC compare loops that write back on mismatch", "src/imp/atomic128/aarch64.rs")],
  observe=["Ok/Err result", "contents afterwards"])

p("C07", "Closure-based updates apply the closure to the value they replace",
  "A successful closure-based update stores exactly what the closure returned for the value that was in the object at the instant of the write, and returns that previous value; if the closure declines, the object is unchanged and the value last passed to the closure is returned as an error. Concurrent closure-based updates are never lost, whatever other operations race with them, and a retry always calls the closure again with a fresh value.",
  ["schedules", "inputs", "configurations"],
  "for every schedule of 2-3 threads running closure-based updates against each other and against any other operation, closures that accept, decline and decline after a retry, for every type and ordering pair",
  SINGLE + "a retry only happens when another thread interferes between the read and the write.",
  ["src/lib.rs"], [("compare_exchange_weak retry loop seeded with the failed value", "src/lib.rs")],
  observe=["return value", "arguments the closure saw", "contents afterwards"])

p("C08", "Release operations publish earlier writes to acquiring readers",
  "If an operation with release semantics writes a value and an operation with acquire semantics in another thread reads it (or a value further down the same chain of read-modify-writes), everything the first thread did before is visible to the second thread afterwards. This holds for every operation in the writing and in the reading role, for failed compare-exchanges with an acquiring failure ordering, transitively through third threads, and on every target's memory model.",
  ["schedules", "programs", "configurations"],
  "for every pair of operations and every ordering combination in message-passing, write-read-causality and related litmus programs of 2-4 threads, over every execution the target's memory model (TSO, Armv8, RVWMO, Power, C11) allows",
  SINGLE + "weak-memory effects need several CPUs and mostly cannot show on x86_64 or under an emulator at all.",
  ["src/imp/atomic128/aarch64.rs", "src/imp/atomic128/powerpc64.rs", "src/imp/atomic128/riscv64.rs", "src/imp/atomic64/riscv32.rs", "src/imp/riscv.rs", "src/imp/arm_linux.rs", "src/imp/fallback/mod.rs", "src/imp/core_atomic.rs", "src/imp/float/aarch64.rs", "src/utils.rs"],
  [("barriers and acquire/release instruction forms chosen per ordering", "src/imp/atomic128/aarch64.rs"), ("lock hand-over orderings of the fallback", "src/imp/fallback/seq_lock_common.rs")],
  observe=["set of final outcomes of litmus programs"])

p("C09", "Sequentially consistent operations form one total order",
  "All sequentially consistent operations, on any mix of objects, widths and operation kinds, appear in one total order consistent with each thread's program order and with what the operations read. In particular store-buffering, independent-readers and read-to-write causality outcomes forbidden by that order never occur, on any target or implementation.",
  ["schedules", "programs", "configurations"],
  "for every pair of sequentially consistent operations in the store-buffering (SB, R, RWC), IRIW and 2+2W shapes, mixing double-word, native-width and fallback objects, over every execution the target's memory model allows",
  SINGLE + "store buffering is invisible to one thread, and emulators do not reproduce it.",
  ["src/imp/atomic128/x86_64.rs", "src/imp/atomic128/aarch64.rs", "src/imp/atomic128/powerpc64.rs", "src/imp/atomic128/s390x.rs", "src/imp/atomic128/riscv64.rs", "src/imp/atomic64/riscv32.rs", "src/imp/riscv.rs", "src/imp/arm_linux.rs", "src/imp/fallback/mod.rs"],
  [("full barrier after SeqCst vector store", "src/imp/atomic128/x86_64.rs"), ("leading/trailing sequentially consistent fences around lock sections", "src/imp/fallback/mod.rs")],
  observe=["set of final outcomes of litmus programs"])

p("C10", "All threads agree on the modification order of each object",
  "Even with relaxed ordering, all threads see the changes of one object in a single order: a thread that has read or written a value never later reads an older one, and a thread's own writes are never seen out of order. Every read-modify-write acts on the value immediately before its own in that order.",
  ["schedules", "programs", "configurations"],
  "for every pair of operations, at every ordering including relaxed, in the coherence shapes CoRR, CoWW, CoRW, CoWR and in two-increment programs, over every execution the target's memory model allows",
  SINGLE + "no second thread exists to disagree.",
  ["src/imp/atomic128", "src/imp/atomic64", "src/imp/fallback/seq_lock_common.rs", "src/imp/fallback/mod.rs", "src/imp/riscv.rs"],
  [("single-copy atomic accesses or lock sections per object", "src/imp/fallback/mod.rs")],
  observe=["sequence of values each thread reads"])

p("C11", "Orderings that make no sense are rejected before anything happens",
  "A load (or the failure side of a compare-exchange) asked for release or acquire-release ordering, a store asked for acquire or acquire-release ordering, and a relaxed fence panic, for every type and every implementation; the object and its neighbours are then exactly as before and no lock or interrupt mask is left behind. Every other ordering is accepted.",
  ["inputs", "configurations", "histories"],
  "for every operation, every ordering or pair of orderings, every type, on every implementation, followed by further operations on the same object",
  "The tests check a subset of panics natively for the configurations they run; not for the other implementations, nor the state left behind.",
  ["src/utils.rs", "src/lib.rs", "src/imp/fallback/mod.rs", "src/imp/interrupt/mod.rs"],
  [("ordering assertions at the API boundary", "src/utils.rs")],
  observe=["panic or return", "contents, locks and interrupt state afterwards"])

p("C12", "Run-time CPU detection never selects an instruction the CPU lacks",
  "Whatever the CPU, operating system and their answers to feature queries, an operation only executes instructions that the CPU and operating system support, falling back otherwise. All threads, including any that make the first calls concurrently, and all operations agree on whether a given width is handled with or without locks, so the two kinds of access are never mixed on one object.",
  ["configurations", "schedules", "inputs"],
  "for every combination of feature bits and operating-system answers relevant to detection, every interleaving of 2-3 threads making their first calls of any two operations",
  "The tests run on one CPU model (or one emulated one), and initialise detection from one thread.",
  ["src/imp/detect/common.rs", "src/imp/detect/x86_64.rs", "src/imp/detect/auxv.rs", "src/imp/detect/aarch64_aa64reg.rs", "src/imp/detect/riscv_linux.rs", "src/imp/atomic128/x86_64.rs", "src/imp/atomic128/aarch64.rs", "src/imp/atomic128/powerpc64.rs", "src/imp/atomic128/riscv64.rs", "src/imp/atomic64/riscv32.rs", "src/imp/atomic64/arm_linux.rs", "src/utils.rs", "src/imp/fallback/outline_atomics.rs"],
  [("cached feature word", "src/imp/detect/common.rs"), ("self-replacing function pointers", "src/utils.rs")],
  state=[("feature cache", "bit set of detected features plus an initialised bit", "src/imp/detect/common.rs")],
  observe=["instructions executed", "lock-free report"])

p("C13", "Lock-free means lock-free, and the reports about it are truthful and stable",
  "When a type reports that it is (always) lock-free, every operation on it completes in a bounded number of its own steps once it runs alone, no matter where the other threads were suspended, and without entering a critical section supplied by the user (briefly masking interrupts on a declared single core counts as lock-free). The always-lock-free report is constant and implies the per-process report, which gives the same answer on every call from every thread for the life of the process; when an operation may block, the report says it is not lock-free.",
  ["schedules", "configurations", "inputs"],
  "for every type, every CPU model, every reachable intermediate state of 2-3 threads running any operations, with all threads but one suspended there forever",
  "The tests call the report once; suspending a thread in the middle of an operation is out of their reach.",
  ["src/lib.rs", "src/imp/mod.rs", "src/imp/core_atomic.rs", "src/imp/fallback/mod.rs", "src/imp/interrupt/mod.rs", "src/imp/atomic128/x86_64.rs", "src/imp/atomic128/aarch64.rs", "src/imp/atomic128/powerpc64.rs", "src/imp/atomic128/riscv64.rs", "src/imp/detect/common.rs"],
  [("per-implementation constants and run-time detection", "src/imp/detect/common.rs")],
  observe=["report values", "completion of a thread running alone"])

p("C14", "The lock-based fallback always makes progress and leaves no lock behind",
  "From every reachable state of any set of threads using lock-based operations, all calls can complete and, under fair scheduling, do complete: no deadlock, no lost unlock, no reader that retries forever although no writer is active. This holds after successful and failed compare-exchanges, optimistic reads that had to fall back to locking, operations on two objects that share a lock, and at every value of the version counter.",
  ["schedules", "histories", "configurations"],
  "for every schedule of 2-3 threads with 1-2 lock-based operations each, from every starting version-counter value next to a wrap-around",
  SINGLE + "a lock that stays held, or a counter stuck at the locked value, only shows after a specific operation, schedule or number of writes.",
  ["src/imp/fallback/seq_lock.rs", "src/imp/fallback/seq_lock_wide.rs", "src/imp/fallback/seq_lock_common.rs", "src/imp/fallback/mod.rs", "src/imp/fallback/utils.rs"],
  [("guards that unlock or abort on drop", "src/imp/fallback/seq_lock_common.rs")],
  observe=["completion of all calls", "lock words after the last call"])

p("C15", "Float atomics are bit-exact and compute the documented arithmetic",
  "Loads, stores, swaps and compare-exchanges of atomic floats move and compare bit patterns exactly, including signed zeros, subnormals, infinities and NaN payloads; negation and absolute value change only the sign bit; addition, subtraction, minimum and maximum store exactly the IEEE result (for minimum and maximum: the number if one operand is NaN) of the value they return and the operand. Concurrent float operations are indivisible.",
  ["inputs", "schedules", "configurations"],
  "for every pair of values from the boundary set of each float type (all 16-bit patterns for half precision where available), every operation and ordering, every schedule of two threads, on each implementation",
  SINGLE + "they sample a few values per operation and no schedules.",
  ["src/imp/float/int.rs", "src/imp/float/aarch64.rs", "src/lib.rs"],
  [("bit-casting wrappers over integer atomics", "src/imp/float/int.rs"), ("exclusive load / FP op / exclusive store loops", "src/imp/float/aarch64.rs")],
  observe=["bit pattern returned", "bit pattern stored"])

p("C16", "Atomic pointer arithmetic and tagging are exact",
  "Element-wise pointer addition and subtraction move the stored pointer by the element size times the count, byte-wise forms by the count, and the bitwise forms apply and/or/xor or single-bit set/clear/toggle to the address, all wrapping; each returns the previous pointer (or previous bit). They are indivisible against each other and against every other pointer operation.",
  ["inputs", "schedules", "configurations"],
  "for every operation, element sizes 0, 1, 4 and larger, boundary addresses, counts and bit numbers, every ordering, and every schedule of two threads",
  SINGLE + "they sample a few values per operation on one thread.",
  ["src/lib.rs", "src/imp/core_atomic.rs", "src/imp/riscv.rs", "src/imp/msp430.rs"],
  [("pointer operations routed through integer operations on the address", "src/lib.rs")],
  observe=["previous pointer or bit", "address stored"])

p("C17", "Atomic bools only ever hold and report true or false",
  "Whatever sequence or interleaving of operations is applied, an atomic bool holds a valid bool in memory at every instant and every operation returns a valid bool equal to the documented previous value; and, or, xor, nand and not are exact, including the fallback forms built from swap or from neighbouring-byte masks.",
  ["schedules", "inputs", "histories", "configurations"],
  "for every sequence of up to three operations and every interleaving of two threads' operations, all operands, all orderings, on every target family",
  SINGLE + "they sample a few values per operation on one thread; the target-specific bool paths are not compiled.",
  ["src/lib.rs", "src/imp/riscv.rs", "src/imp/core_atomic.rs"],
  [("byte-wide operations on the representation of bool", "src/lib.rs")],
  observe=["byte in memory", "returned bool"])

p("C18", "Operations touch only the object they are given",
  "An operation reads and writes no memory that another program part could notice apart from its own object: bytes directly before and after it keep their values, even while other threads atomically or plainly modify them at the same time, including for 8-bit and 16-bit objects emulated with word-wide instructions. A load never writes to an object placed in read-only memory where the documentation allows that.",
  ["schedules", "inputs", "configurations"],
  "for every operation and type, at every position of the object within its naturally aligned word, every schedule against a thread that changes the neighbouring bytes",
  SINGLE + "they never look at neighbouring memory.",
  ["src/imp/riscv.rs", "src/utils.rs", "src/imp/fallback/mod.rs", "src/imp/msp430.rs", "src/imp/atomic128", "src/imp/interrupt/mod.rs"],
  [("mask and shift of the containing word", "src/utils.rs")],
  observe=["bytes around the object"])

p("C19", "Atomics have the layout of plain values and can be viewed in place",
  "Each atomic type has the size of the plain value and alignment equal to its size; its bytes in memory are always exactly the value's, so creating it from a value or a reference or raw pointer to plain memory, reading it back through mutable access, a raw pointer or by consuming it, all agree with what atomic operations see. A new or default object holds the given or zero value, also when built in constants and statics.",
  ["histories", "inputs", "configurations"],
  "for every type, every boundary value, and every sequence of up to three construction, in-place view and atomic operations",
  "The tests check layout and a few conversions for the types they instantiate, not every operation sequence nor each implementation.",
  ["src/lib.rs", "src/imp/core_atomic.rs", "src/imp/fallback/mod.rs", "src/imp/interrupt/mod.rs", "src/imp/atomic128/macros.rs", "src/imp/atomic64/macros.rs"],
  [("transparent representation over an UnsafeCell with forced alignment", "src/lib.rs")],
  observe=["size and alignment", "bytes in memory"])

p("C20", "Concurrent use is free of data races at the language level",
  "No execution of any mix of operations on shared atomics by any number of threads performs an unsynchronised pair of accesses to the same memory of which one is a plain (non-atomic) write or read, so concurrent use is never undefined behaviour. In particular the lock-based fallback accesses object contents that readers may inspect at the same time only by atomic accesses.",
  ["schedules", "programs", "configurations"],
  "for every C11 execution of 2-3 threads running any operations on one or two fallback objects or first-use detection, with every memory access the compiled crate makes classified as atomic or plain",
  "A race has no visible effect on x86_64 value tests; the sanitizer builds replace the code in question.",
  ["src/imp/fallback/mod.rs", "src/imp/fallback/seq_lock_common.rs", "src/imp/fallback/utils.rs", "src/imp/detect/common.rs", "src/imp/core_atomic.rs"],
  [("chunk-wise atomic access to the protected value", "src/imp/fallback/mod.rs")],
  observe=["memory accesses of the compiled code"])

p("C21", "Operations leave the calling code's machine state intact",
  "Apart from its result and the object, an operation changes nothing the compiler believes to survive the call: no register, flag, stack slot or control bit is modified unless declared, reserved registers are restored on every path, and memory effects are never hidden from the compiler. This holds on every path through every operation, including retries and failures.",
  ["inputs", "schedules", "configurations"],
  "for every path (retry, failure, success, either branch) through every inline-assembly sequence of every implementation, checked against the registers, flags and memory effects declared to the compiler",
  "A clobbered register only misbehaves if the surrounding compiled code happens to keep a live value there.",
  ["src/imp/atomic128/x86_64.rs", "src/imp/x86.rs", "src/imp/atomic128/aarch64.rs", "src/imp/atomic128/powerpc64.rs", "src/imp/atomic128/s390x.rs", "src/imp/riscv.rs", "src/imp/msp430.rs", "src/imp/arm_linux.rs", "src/imp/atomic64/arm_linux.rs", "src/imp/interrupt", "src/imp/detect/x86_64.rs"],
  [("operand lists and clobber options of inline assembly", "src/imp/atomic128/x86_64.rs"), ("manual save and restore of rbx", "src/imp/atomic128/x86_64.rs")],
  observe=["registers and flags before and after"])

p("C22", "Fences order relaxed accesses as the language memory model promises",
  "A fence of the crate gives exactly the guarantees of the standard library's fence of the same ordering: a release fence before a relaxed write and an acquire fence after a relaxed read of it synchronise, an acquire-release fence does both, and sequentially consistent fences additionally forbid store buffering and independent-reader disagreement between relaxed accesses. A compiler fence emits no weaker compile-time ordering than the standard one.",
  ["schedules", "programs", "configurations"],
  "for every fence ordering in message-passing, store-buffering, IRIW, ISA2 and 2+2W programs of 2-4 threads, over every execution the target's memory model allows",
  SINGLE + "fences have no single-threaded effect.",
  ["src/lib.rs", "src/imp/x86.rs", "src/imp/arm_linux.rs", "src/imp/interrupt/mod.rs", "src/imp/msp430.rs"],
  [("locked exchange as full fence", "src/imp/x86.rs"), ("kernel helper barrier", "src/imp/arm_linux.rs")],
  observe=["set of final outcomes of litmus programs"])

p("C23", "Conversions, formatting and serialisation reflect the current value",
  "Formatting an atomic prints exactly what formatting its current value prints; serialising it produces exactly what serialising its current value produces, and deserialising yields an atomic with that value or the same error. From, Default and cross-type views agree with the plain value, and none of them changes the object.",
  ["inputs", "histories", "configurations"],
  "for every type, every 8-bit value and the boundary values of wider types, every formatting flag combination used for plain values, every serialisable and malformed input shape in a small grammar",
  "The tests print and round-trip one or two values of some types.",
  ["src/lib.rs", "src/imp/float/int.rs"],
  [("delegation to the loaded value", "src/lib.rs")],
  observe=["formatted text", "serialised tokens", "contents afterwards"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
