#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
SC = ("Every interleaving of the machine-level memory accesses of the stated client programs, executed on the LLVM IR and "
      "inline assembly that rustc produces from /repo for each listed build and machine, is enumerated with state hashing; "
      "bounded to at most 3 threads and the stated calls and operands. Trusted: the IR/instruction interpreters in engine/, "
      "cross-checked against native and qemu runs.")
WM = ("For every litmus program of the family, the complete traces of each thread are extracted from the compiled code "
      "(LLVM IR and inline assembly) and every candidate execution (reads-from and modification order) is judged by the "
      "memory model of the target (x86/s390x TSO, Armv8, RVWMO, Power) or of the language (RC11) where the code is not "
      "assembly; lock-based code is run by a view-based operational machine for the language model with state hashing. "
      "The oracle is the set of outcomes RC11 allows the program of calls. Bounded to 2-4 threads of at most three calls, "
      "with at most one failed store-conditional per call. Trusted: the memory models as written in engine/src/weak.rs.")
CONV = ("A native program built against the working tree enumerates all combinations of formatting flags, values, sinks that fail, "
      "serialiser and deserialiser tokens, and, for formatting, every write at which another thread may change the object, and compares "
      "the atomic with the plain type on each. Runs the real code directly; no model. Bounded to boundary values for types wider "
      "than 8 bits (16 in the thorough tier) and one concurrent change per call.")
claims = {
 "C08": ("explicit enumeration of all candidate executions (axiomatic memory models) and of all states of a view-based machine, for release/acquire litmus families over the compiled code", WM),
 "C09": ("explicit enumeration of all candidate executions (axiomatic memory models) and of all states of a view-based machine, for sequentially consistent litmus families over the compiled code", WM),
 "C10": ("explicit enumeration of all candidate executions (axiomatic memory models) and of all states of a view-based machine, for coherence litmus families over the compiled code", WM),
 "C22": ("explicit enumeration of all candidate executions (axiomatic memory models) and of all states of a view-based machine, for fence litmus families over the compiled code; every path of compiler_fence checked", WM),
 "C01": ("explicit-state model checking: all interleavings of the compiled code against a linearizability monitor", SC),
 "C02": ("explicit-state model checking: all interleavings at instruction granularity (halves of pair accesses split where the CPU may split them, LL/SC with spurious failure) against a linearizability monitor", SC),
 "C03": ("explicit-state model checking: all interleavings of the lock-based fallback against a linearizability monitor, from version counters at and before wrap", SC),
 "C04": ("explicit-state model checking: interrupt arrival enumerated at every access of the operation, nested handlers, both initial interrupt states", SC),
 "C05": ("explicit-state model checking: exhaustive enumeration of operand pairs over value alphabets on the compiled code, and of all two-thread interleavings of plain forms, against a sequential reference model", SC),
 "C06": ("explicit-state model checking: all schedules (including spurious LL/SC failure) of compare-exchanges against every other operation, and every valid ordering pair", SC),
 "C07": ("explicit-state model checking: all interleavings of closure-based updates with every other operation against a linearizability monitor", SC),
 "C11": ("explicit-state model checking: every operation with every ordering, alone and in the middle of other threads' operations", SC),
 "C12": ("explicit-state model checking: every CPU feature combination and operating-system answer, all interleavings of concurrent first calls, with illegal-instruction detection", SC),
 "C13": ("explicit-state model checking: from every reachable state of 2-3 threads each thread is run alone to completion; reports enumerated over all builds and machines", SC),
 "C14": ("explicit-state model checking: deadlock search and fair-livelock search (strongly connected components) over the full state graph of the lock-based fallback", SC),
 "C15": ("explicit-state model checking: exhaustive enumeration of operand pairs over bit-pattern alphabets and of all interleavings of float operations", SC),
 "C16": ("explicit-state model checking: exhaustive enumeration of operand pairs over address alphabets and of all interleavings of pointer operations", SC),
 "C17": ("explicit-state model checking: all bool states and operands, all interleavings, with the contents checked in every state", SC),
 "C18": ("explicit-state model checking: all interleavings of operations with plain and atomic accesses to neighbouring bytes, every access checked against the object's footprint", SC),
 "C19": ("explicit-state model checking: every sequence of up to three construction, in-place view and atomic operations over value alphabets, executed on the compiled code of every build and compared with a plain value in every state", SC),
 "C20": ("explicit-state model checking: co-enabled conflicting accesses searched in every reachable state of the compiled code", SC),
 "C21": ("explicit-state model checking: every path through every operation's inline assembly with clobbered, reserved and undeclared registers tracked, for several register assignments", SC),
 "C23": ("exhaustive enumeration on the real code: every formatting flag combination, token and text of a grammar, value of an alphabet and moment of a concurrent change, atomic and plain value compared in lock-step", CONV),
}
exec(open(root + "/tools/claims_extra.py").read()) if os.path.exists(root + "/tools/claims_extra.py") else None
m = {"version": 1,
     "setup_cmd": "./run.sh build",
     "checks": [{"property": i, "quick_cmd": f"./run.sh check {i} --tier quick", "thorough_cmd": f"./run.sh check {i} --tier thorough",
                 "technique": claims[i][0], "level": "model_checking", "level_note": claims[i][1]} for i in ids if i in claims],
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in claims]}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
