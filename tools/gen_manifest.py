#!/usr/bin/env python3
import json
EX = "exhaustive enumeration of bounded %s, executed on the real code and compared with a reference model"
T = {
"C01": (EX % "write sequences (explicit-state search over sink states)", "Every write sequence within the bounds over boundary-directed sizes and all write interfaces, on file and in-memory storage; page thresholds are crossed at every offset near them. Trusts the reference page splitter in common/spec.rs."),
"C02": ("stateless model checking of the real code: all thread interleavings up to a preemption bound, under a controlled scheduler", "All interleavings of 2-3 threads up to the preemption bound at every atomic access, lock operation and write call (ThreadSanitizer instrumentation and an interposed parking_lot_core give the scheduling points). Sequential consistency is assumed, weak memory orders are not explored; blocked threads are found by deadlock detection."),
"C03": ("stateless model checking of the real code: all thread interleavings up to a preemption bound, under a controlled scheduler", "As C02, for whole profiler sessions with 2-3 threads; the finished profile of every schedule is decoded and compared with what the threads recorded. Sequential consistency is assumed."),
"C04": ("exhaustive crash-point enumeration over recorded write histories of the real code", "All session shapes to the depth; every write-call boundary, torn-write cut and abandoned session is replayed as a crash and decoded. The disk is modelled as accepting the bytes of each write in order (prefix semantics)."),
"C05": ("exhaustive fault enumeration: every system call of a session answered with every fault, singly and in pairs", "Faults are injected by interposing the C library's file calls in process. Covers short writes, EINTR, and errors at every call of bounded sessions."),
"C06": (EX % "events over boundary values of every packed field", "All combinations of field values at bit-boundaries, and every change of one bit; not all 2^48 values."),
"C07": (EX % "string tables (contents, positions, references)", "Strings at every interesting address, references with every id byte pattern, nested composites to the bound; both resolution paths."),
"C08": (EX % "mapping sequences", "All sequences of single and bulk mappings with resolution before and after; boundary ids."),
"C09": (EX % "event ids over a byte alphabet", "All texts of up to the bound over an alphabet with every control character, separators and multi-byte characters, and all single characters up to U+FFFF."),
"C10": (EX % "sequences of profiler calls", "All call sequences up to the depth on the real profiler with a controlled clock, with the profile decoded at the end."),
"C11": (EX % "command lines (every byte, all short combinations)", "Command lines are passed to a real child process that records a profile."),
"C12": (EX % "corruptions of file and stream headers", "All one- and two-byte changes of headers, all versions near the supported ones and at bit boundaries, all lengths, all subsets of streams, both formats."),
"C13": (EX % "truncations of profiles in every page layout", "Every truncation point of profiles with every page order and cut, both formats."),
"C14": (EX % "sequences of front and back reads", "All mixes of reading operations up to the depth on profiles with up to the bound of events, and very long profiles near the ends."),
"C15": (EX % "recording histories", "All well-nested histories up to the depth over kinds, labels, threads and ties, in all three ways of storing event ids, and large profiles; compared with an independent reference analysis kept during recording."),
"C16": (EX % "recording histories", "As C15, for collapsed stacks and the real tool."),
"C17": (EX % "pairs of recording histories", "All pairs from a family of histories, through the library and the real tool, from profiles and JSON."),
"C18": (EX % "runs and single alterations of them", "All bounded single-threaded runs with all choices of durations, and every single alteration, given to the real tool."),
"C19": (EX % "recording histories and inputs", "The real tool's JSON is compared entry by entry."),
"C20": (EX % "arrangements of thread periods", "All multisets of periods on a small time line, given to the real tool."),
"C21": (EX % "recording histories", "The real tool's output is compared in full."),
"C22": (EX % "page arrangements of profiles", "All orders and cuts of pages of a small profile, recorded sessions of all sizes, all unsupported versions, given to the real tool."),
"C23": (EX % "sessions written in both formats", "The previous format is written by the previous release of the library; events, analyses and the output of every tool are compared."),
"C24": (EX % "recording histories and thresholds", "The real tool's table and JSON are compared with the reference analysis."),
"C25": (EX % "recording histories", "The frames of the real tool's SVG are parsed and compared with the chains known from recording."),
"C26": (EX % "pairs of events over grids of times", "All ordered pairs on time grids and over all powers of two, both formats."),
"C27": (EX % "sequences of builder calls", "All call sequences up to the depth with nesting; all boundary values with special texts."),
"C28": (EX % "commands, inputs and ways of naming them", "Every command with every kind of unreadable input in every position; what crox leaves behind after a failure is open."),
"C29": (EX % "counter names", "All names one edit from a valid one; hardware counters themselves are not available here."),
"C30": ("exhaustive fault enumeration: every tool run with room for every possible number of bytes of its result", "The fault is a limit on the file size, at which writes are cut and then fail; for results of many buffers the points around buffer boundaries are taken. Errors other than a full medium are not injected into the tools."),
"C31": ("exhaustive enumeration of profiles, commands, storage forms, environments and prescribed hash seeds", "Hash seeds are prescribed by a stand-in for getrandom, validated by a probe; a small set of seeds is enumerated, not all 2^128. Every profile shape of the family with every command."),
}
NA = []
checks = []
for i, (t, n) in T.items():
    checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i,
                   "technique": t, "level": "model_checking", "level_note": n})
json.dump({"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": NA,
           "notes": "No hooks are needed in /repo: the harness uses public interfaces, the real command line tools, compiler instrumentation and interposed library calls."},
          open("/verif/MANIFEST.json", "w"), indent=1)
