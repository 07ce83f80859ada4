#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run it to regenerate)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mechanism],
            observe_at=list(observe),hook_needed=hook)))

p("C01","Every stream reads back as exactly the bytes written, at the returned addresses",
 "For every sequence of writes, of any sizes and through any of the write interfaces, to any number of sinks sharing one backing store, splitting the stored pages by tag yields for each tag exactly the concatenation of the bytes written to that tag, nothing lost, duplicated or reordered. Each write returns the address at which its bytes start in that stream and its bytes are contiguous there. A write abandoned by a panic in its callback shifts or damages no other write. This holds for file and in-memory storage, after flushing, dropping or consuming a sink.",
 ["histories","inputs"],
 "all sequences of write calls (interface x size, sizes on both sides of every paging threshold), any interleaving of sinks, flushes and drops",
 "Round-trip tests use one write size and one interface per test and never mix sizes, interfaces, flushes or zero-length writes, so buffer states between the thresholds are not reached; the file-backed path is not compared with the in-memory one.",
 ["measureme/src/serialization.rs"],
 [("page buffer, fill-to-minimum, flush and chunking","measureme/src/serialization.rs SerializationSink::write_atomic/write_bytes_atomic"),("stream reassembly","measureme/src/serialization.rs split_streams")],
 [("buffer/addr","bytes not yet paged out / next stream address","SerializationSinkInner")],
 ["returned Addr values","split_streams(file bytes)","into_bytes()"])
p("C02","Concurrent writes are atomic: each lands once, whole, at its own address",
 "When several threads write to the same sinks at the same time, under every thread interleaving each write's bytes appear exactly once, contiguously, at the address returned to its caller, and writes issued one after the other by one thread to one sink get increasing addresses. Addresses handed out partition the stream without gaps or overlaps. No interleaving deadlocks or corrupts the page structure of the shared store.",
 ["schedules"],
 "all interleavings (up to a preemption bound, scheduling points at every atomic operation, lock wait and racing plain access) of 2-3 threads doing small and page-crossing writes and flushes on shared sinks",
 "The multi-threaded tests run a handful of OS-chosen schedules with small writes; a window of a few instructions between address assignment, buffering and page emission is practically never hit.",
 ["measureme/src/serialization.rs"],
 [("per-sink mutex held over address assignment and buffering","measureme/src/serialization.rs SerializationSink::data"),("shared backing-store mutex held over header+payload of a page","measureme/src/serialization.rs SerializationSink::write_page")],
 [],["returned Addr values","backing bytes after all threads finished"])
p("C03","A profile recorded from many threads contains exactly what every thread recorded",
 "When several threads use one profiler concurrently (allocating strings, mapping virtual ids, recording interval, instant and integer events), then under every interleaving the finished profile decodes to exactly the multiset of recorded events, each thread's own events in the order it recorded them, with every kind, label and argument resolving to the string that was allocated for it. Recorded intervals never end before they start. No interleaving deadlocks or panics.",
 ["schedules","histories"],
 "all bounded-preemption interleavings of 2-3 threads running short recording programs, including across page flushes",
 "Serialization tests run 8 threads free-running with identical strings on each thread; they see few interleavings, never force a flush inside a race and cannot notice two threads' strings swapped.",
 ["measureme/src/profiler.rs","measureme/src/stringtable.rs","measureme/src/serialization.rs"],
 [("one sink per stream, each internally locked","measureme/src/profiler.rs Profiler"),("string id derived from the address returned by the atomic write","measureme/src/stringtable.rs StringTableBuilder::alloc")],
 [],["ProfilingData::iter_full on the finished file"])
p("C04","A profile cut short by a crash never shows anything that was not recorded",
 "At every crash point of a recording session the bytes on disk are a prefix of the file the completed session would have left: an intact file header followed by whole pages and at most one torn page at the end, data already written never being rewritten. Reading the streams from the whole pages yields prefixes of the streams of the complete file; the event stream holds whole events only, in order. Every event recovered decodes to what was recorded, for each string whose data reached the disk before the crash.",
 ["crash_points","histories"],
 "every byte boundary of the output of every bounded recording session, plus every write-call boundary",
 "No test looks at an incomplete file; only finished profiles are read.",
 ["measureme/src/serialization.rs","measureme/src/profiler.rs","measureme/src/stringtable.rs"],
 [("append-only paged writes, header first","measureme/src/serialization.rs write_page"),("event size divides into pages, atomic writes are never split over pages","measureme/src/serialization.rs write_atomic")],
 [],["file contents after each write system call"])
p("C05","Short or interrupted writes are invisible and write errors are never swallowed",
 "If the operating system accepts only part of a write or interrupts it, the resulting file is byte-identical to the one written without faults. If a write, flush or creation fails with a real error, the failure surfaces to the caller (an error result or a panic) at the latest when the data is flushed or the sink dropped, and is never reported as success. Bytes already on disk before the failure stay a prefix of the fault-free file.",
 ["fault_sequences"],
 "every placement of up to k short writes/interruptions and every placement of one hard error over the write calls of bounded recording sessions",
 "Tests never inject I/O faults; a local file system practically always accepts the whole write.",
 ["measureme/src/serialization.rs","measureme/src/file_header.rs","measureme/src/profiler.rs"],
 [("write_all for header, page header and payload; unwrap of the result","measureme/src/serialization.rs write_page"),("error propagation on creation","measureme/src/profiler.rs Profiler::with_counter")],
 [],["file contents","returned Result / panic"])
p("C06","Event records round-trip exactly over their whole value range",
 "For every kind id, event id, thread id and every representable time or value, encoding an event and decoding it yields the same event of the same type (interval, instant or integer) with the same values. Different events never share an encoding. Values outside the representable range, or an interval that ends before it starts, are refused rather than stored as something else.",
 ["inputs"],
 "all boundary and single-bit/power-of-two values of each field, all pairs of them, and the neighbourhoods of the reserved marker values",
 "Unit tests check about a dozen hand-picked values; bits crossing the 16/32/48-bit packing boundaries in both payloads at once are not covered.",
 ["measureme/src/raw_event.rs","decodeme/src/event_payload.rs","decodeme/src/lib.rs"],
 [("48-bit packing with reserved end values","measureme/src/raw_event.rs RawEvent::pack_values"),("range assertions","measureme/src/raw_event.rs new_interval/new_instant/new_integer")],
 [],["RawEvent::serialize/deserialize","decoded Event and LightweightEvent payloads"])
p("C07","Every allocated string resolves to exactly its content",
 "Any string or composite of text pieces and references to earlier strings, allocated at any position in the string data, resolves through its id to the concatenation of its pieces, for plain, single-reference, nested and repeated references, empty pieces and any Unicode text. The borrowing and the appending way of resolving a string agree. Resolution does not depend on what else is stored, where it is stored, or which byte values happen to occur in ids.",
 ["inputs","histories"],
 "all component sequences up to a bound over an alphabet of text pieces and references, at every string-table address in a window and at addresses whose ids contain marker bytes",
 "Two unit tests resolve 16 fixed strings at small addresses.",
 ["measureme/src/stringtable.rs","decodeme/src/stringtable.rs","measureme/src/serialization.rs"],
 [("0xFE reference tag / 0xFF terminator encoding","measureme/src/stringtable.rs StringComponent::serialize"),("fast paths for single value / single reference","decodeme/src/stringtable.rs StringRef::to_string"),("general expansion","decodeme/src/stringtable.rs StringRef::write_to_string")],
 [],["StringTable::get(id).to_string()","write_to_string"])
p("C08","Virtual string ids resolve to what they were mapped to, and only then",
 "A virtual id, mapped individually or in bulk, in any order relative to its use in events or in other strings, resolves to the content of the concrete string it was mapped to; a repeated mapping resolves to the latest one. Unmapped and invalid ids show as the placeholder text, never as another string. Ids outside the user range, in particular the reserved metadata id, cannot be mapped.",
 ["histories","inputs"],
 "all sequences of individual/bulk mappings over a small id set including range limits, all bulk sizes up to several pages of index data",
 "Tests map virtual ids one fixed way with small bulk sizes and never remap, leave unmapped or probe the range limits.",
 ["measureme/src/stringtable.rs","decodeme/src/stringtable.rs"],
 [("id partition and assertions","measureme/src/stringtable.rs"),("bulk index encoding","measureme/src/stringtable.rs bulk_map_virtual_to_single_concrete_string"),("index lookup","decodeme/src/stringtable.rs StringRef::get_addr")],
 [],["decoded event labels","StringTable::get"])
p("C09","Labels and arguments of an event decode exactly as they were composed",
 "An event id built from a label and any number of arguments decodes to exactly that label and that list of arguments, whenever each text is non-empty and free of control characters other than whitespace. Texts outside that grammar are reported as a parse error for the label, or end the argument list at the offending argument, without affecting preceding arguments or other events. Decoding never panics on any event-id text.",
 ["inputs"],
 "all label/argument lists up to a bound over an alphabet with letters, whitespace, every ASCII control character, separators and multi-byte text; argument counts up to dozens; labels/args that are plain, composite or virtual strings",
 "Six unit tests parse fixed texts; none goes through the builder, and no test has more than three arguments.",
 ["measureme/src/event_id.rs","decodeme/src/event.rs"],
 [("EventIdBuilder","measureme/src/event_id.rs from_label/from_label_and_arg/from_label_and_args"),("parser","decodeme/src/event.rs Event::parse_event_id")],
 [],["Event.label / Event.additional_data"])
p("C10","A recorded session decodes to the same events with the same times",
 "For every sequence of profiler calls, the finished profile contains one event per recorded event, in the order the events were recorded (an interval when it ends), with the kind, label, arguments and thread id given and with start and end equal to the counter readings taken when it started and ended. Detached timings, guards dropped in any order and an overridden event id behave accordingly. Creating a profiler replaces any previous file and derives the file name from the given path stem.",
 ["histories"],
 "all bounded sequences of profiler operations with nested, crossed and detached timings under a controlled clock",
 "The serialization tests record one fixed nesting pattern under the real clock and compare only order and kinds, not times; detached and override paths are exercised once.",
 ["measureme/src/profiler.rs","measureme/src/counters.rs","analyzeme/src/profiling_data.rs"],
 [("TimingGuard drop records the event","measureme/src/profiler.rs"),("counter relative to profiler start","measureme/src/counters.rs WallTime")],
 [],["ProfilingData::iter_full"])
p("C11","Session metadata and command line survive for every command line",
 "The start time, process id and command line recorded at profiler creation are read back for every command line the process may have: all arguments appear in order, separated by spaces, whatever characters they contain. No argument can make the profile unreadable or make creating the profiler fail. Whitespace and printable ASCII text other than quotes and backslashes appears verbatim.",
 ["inputs","configurations"],
 "all argument lists up to a bound over an alphabet of ordinary, quoting, backslash, control, non-ASCII and non-UTF-8 characters",
 "Tests only see the test runner's own plain command line.",
 ["measureme/src/profiler.rs","decodeme/src/lib.rs","measureme/src/counters.rs"],
 [("metadata JSON","measureme/src/profiler.rs Profiler::with_counter"),("metadata parsing","decodeme/src/lib.rs Metadata")],
 [],["ProfilingData::metadata()"])
p("C12","Files that are not readable profiles are refused with an error, never misread",
 "A file that is too short, has a wrong signature, or has a format version other than the supported ones is refused with an error and never opened or panicked on; every supported version is accepted. The same holds for the header of each stream in it, and for files lacking one of the streams. Files this library writes always carry the signatures and the current version.",
 ["inputs"],
 "all header lengths 0..8, every single-byte change of every header byte to all 256 values, all version numbers in ranges and at power-of-two boundaries, every subset of streams missing",
 "Unit tests check one altered byte, one version and the empty file.",
 ["measureme/src/file_header.rs","decodeme/src/lib.rs","analyzeme/src/profiling_data.rs","analyzeme/src/file_formats/mod.rs"],
 [("header verification","measureme/src/file_header.rs verify_file_header; decodeme/src/lib.rs read_file_header"),("version dispatch","analyzeme/src/profiling_data.rs from_paged_buffer")],
 [],["Result of ProfilingData::from_paged_buffer / EventDecoder::new / verify_file_header"])
p("C13","A truncated profile file is never silently accepted with wrong data",
 "For every truncation of a valid profile file, opening and fully reading it either fails or yields only a leading part of the original events, each with its original times, thread and texts where the texts' data is present. It never yields events that were not in the original file or texts taken from another string. Which pages a string or event happened to be in does not matter.",
 ["inputs","crash_points"],
 "every byte-length truncation of a family of profiles covering all page layouts, event types and string shapes",
 "No test opens a truncated file.",
 ["measureme/src/serialization.rs","decodeme/src/lib.rs","decodeme/src/stringtable.rs"],
 [("page bounds checks in stream splitting","measureme/src/serialization.rs split_streams"),("whole-event and whole-index-entry checks","decodeme/src/lib.rs num_events; decodeme/src/stringtable.rs StringTable::new")],
 [],["opened ProfilingData or error"])
p("C14","Reading events forwards, backwards or by index gives one consistent sequence",
 "Every mix of reading from the front and from the back yields each event of the profile exactly once and in the matching order, the reported remaining length is always exact, and an exhausted iterator stays exhausted. Full and lightweight views of an event agree on thread, type and times, and looking an event up again gives the same event. Iteration agrees with the reported number of events.",
 ["histories"],
 "all front/back/size/nth operation sequences over profiles of 0..n events",
 "Tests iterate forwards or reversed once; mixed-end iteration and exhaustion are not exercised.",
 ["analyzeme/src/profiling_data.rs","decodeme/src/lib.rs","decodeme/src/lightweight_event.rs"],
 [("two-index iterator","analyzeme/src/profiling_data.rs ProfilerEventIterator"),("index to address","decodeme/src/lib.rs event_index_to_addr")],
 [],["ProfilingData::iter/iter_full"])
p("C15","Summary analysis accounts for every event and every nanosecond exactly",
 "For every profile whose intervals are well nested per thread (nested ones recorded before the enclosing one, separate trees in any order), each label's self time is its intervals' total length minus that of their direct children, and its total time, invocation, cache-hit, cache-miss, blocked, incremental-load and result-hashing figures follow from its events' kinds as documented. Self times over all labels add up to the total length of the top-level intervals, threads do not influence each other, and artifact sizes are added up per label. Total time is the sum over threads of the span between a thread's first start and last end.",
 ["inputs","histories"],
 "all forests of nested intervals up to a bound with all event kinds, label coincidences, instants, integers and multi-thread interleavings of the stream",
 "Unit tests analyse about ten fixed traces with distinct intervals; ties (shared endpoints, zero lengths), recursion, kind combinations and thread interleavings are mostly absent.",
 ["analyzeme/src/analysis.rs","decodeme/src/event_payload.rs","measureme/src/rustc.rs"],
 [("reverse walk with per-thread stack","analyzeme/src/analysis.rs perform_analysis"),("containment","decodeme/src/event_payload.rs contains")],
 [],["AnalysisResults","summarize --json output"])
p("C16","Collapsed stacks attribute every nanosecond to exactly one stack",
 "For every profile whose intervals are well nested per thread (nested ones recorded before the enclosing one, separate trees in any order), each collapsed stack names the chain of enclosing labels and carries the time spent in that chain but not in nested events, summed over its occurrences and threads. The root entry carries the gaps between top-level events, so all values add up to the time spanned by all threads. The stack-collapse tool writes exactly these stacks, one per line.",
 ["inputs","histories"],
 "all forests of nested intervals up to a bound with label coincidences (including labels that are prefixes of each other), ties, several threads, instants and integers interspersed",
 "Unit tests check three fixed traces; the command-line tool has no test.",
 ["analyzeme/src/stack_collapse.rs","stack_collapse/src/main.rs"],
 [("reverse walk with textual stack id","analyzeme/src/stack_collapse.rs collapse_stacks")],
 [],["collapse_stacks result","out.stacks_folded"])
p("C17","Comparing two profiles reports exactly the per-item differences",
 "For every pair of profiles, the diff lists every label occurring in either exactly once, with each time and count equal to the value in the changed profile minus the value in the base, a missing side counting as zero, and the matching percentage; artifact sizes and total time likewise. Comparing a profile with itself gives zero everywhere and swapping the arguments negates every difference. Inputs may be profiles or previously saved JSON summaries, with the same result.",
 ["inputs","configurations"],
 "all pairs of small profiles over a shared label set with every metric, all combinations of profile and JSON inputs, with table and JSON output and exclusion filters",
 "Only signed-duration subtraction has a unit test; no test runs the diff command or its JSON inputs.",
 ["summarize/src/diff.rs","summarize/src/main.rs","analyzeme/src/analysis.rs"],
 [("label union and subtraction","summarize/src/diff.rs calculate_diff"),("input selection","summarize/src/main.rs process_results")],
 [],["summarize diff output (table and JSON)"])
p("C18","Aggregating profiles reports the true spread for identical runs, rejects others",
 "For every set of single-threaded profiles with identical event sequences (event boundaries at distinct times, at least two of them, events recorded in the order in which they ended), the aggregate output reports, for each interval between consecutive event boundaries, the true minimum and maximum duration across the profiles, lists the smallest and largest spreads, and names the right events. Profiles whose event sequences differ, or that contain several threads, are rejected rather than aggregated wrongly.",
 ["inputs"],
 "all sets of up to 3 profiles with small event trees and small boundary spacings; all single-event alterations for rejection",
 "The aggregate command has no test.",
 ["summarize/src/aggregate.rs"],
 [("sample points and intervals walked in lockstep","summarize/src/aggregate.rs"),("extrema tracking","summarize/src/aggregate.rs Extrema")],
 [],["summarize aggregate output and exit status"])
p("C19","The Chrome trace contains exactly the recorded intervals",
 "For every set of profiles the generated Chrome trace is valid JSON containing, for each input in turn, one complete event per recorded interval in recorded order with its label, kind, arguments, thread, process id, start and duration in microseconds, and the process entries. A minimum duration removes exactly the intervals shorter than it. Inputs given by name and by directory are all included.",
 ["inputs","configurations"],
 "all small profiles over event types, argument counts, texts needing escaping, boundary times and durations, all options and one to several inputs",
 "The converter has no test.",
 ["crox/src/main.rs"],
 [("event conversion and filters","crox/src/main.rs main"),("microsecond conversion","crox/src/main.rs as_micros")],
 [],["chrome_profiler.json"])
p("C20","Collapsing threads never merges threads that were active at the same time",
 "With thread collapsing on, every thread is shown under one id for all its events, two threads whose active periods (first event start to last event end) overlap or touch never share an id, and the number of ids used is the smallest possible, numbered from zero without gaps. Without the option thread ids are unchanged.",
 ["inputs"],
 "all assignments of active periods on a small time grid to up to 5 threads, in all event orders and with instants and integers",
 "The converter has no test.",
 ["crox/src/main.rs"],
 [("greedy interval partitioning over sorted starts and ends","crox/src/main.rs generate_thread_to_collapsed_thread_mapping")],
 [],["tid fields of chrome_profiler.json"])
p("C21","The viewer prints every event, correctly, and only those selected",
 "For every profile the viewer prints each event exactly once, in recorded order, with its kind, label, arguments, thread and payload, times being microseconds since the earliest recorded time in the profile. Selecting a thread prints exactly that thread's events. A profile with no events, and only such a profile, is reported as having none.",
 ["inputs","configurations"],
 "all small profiles over event types, threads, times and argument counts, with every thread selection",
 "The viewer has no test.",
 ["mmview/src/main.rs"],
 [("event loop, filter and formatting","mmview/src/main.rs")],
 [],["mmview standard output"])
p("C22","Truncating a profile keeps its first event page and all its strings",
 "For every profile in a format version the tool suite reads, the truncate command produces a readable profile containing exactly the events of the first event page with all their texts and the metadata unchanged, and leaves the input untouched. A file that is not a profile is refused. Truncating an already truncated profile changes nothing.",
 ["inputs","configurations"],
 "all page-sequence layouts up to a bound of page kinds and sizes, for every supported file version",
 "The editing tool has no test.",
 ["mmedit/src/main.rs","measureme/src/serialization.rs"],
 [("page walk and filter","mmedit/src/main.rs truncate")],
 [],["*.truncated.mm_profdata","exit status"])
p("C23","Profiles in the previous file format read identically to current ones",
 "A profile written in the previous supported file format presents the same events, in the same order, with the same times, values, threads, kinds, labels and arguments, and the same metadata, as the same session recorded in the current format. All analyses of it give the same results. This holds for every event type and value the old format can represent.",
 ["inputs","histories"],
 "all bounded event sequences recorded by the old library version and by the current one, all event kinds and boundary values",
 "Version-8 reading is tested on one sample profile by counting events and comparing a few fields.",
 ["analyzeme/src/file_formats/v8.rs","analyzeme/src/profiling_data.rs"],
 [("conversion of old events, payloads and metadata","analyzeme/src/file_formats/v8.rs")],
 [],["ProfilingData of the v8 file vs of the v9 file"])
p("C24","The summary table shows the analysis faithfully",
 "For every profile the summary table lists the analysed labels in descending self time with their exact figures and their share of total time; a column is left out only when it would be empty for every label. A percentage threshold keeps exactly the labels at or above it, and the stated share is the sum of those shown. The JSON output contains the complete analysis and reads back to the same results.",
 ["inputs","configurations"],
 "all small profiles over combinations of kinds that populate each optional column, all thresholds around the occurring percentages",
 "The summarize command's output has no test.",
 ["summarize/src/main.rs","analyzeme/src/analysis.rs"],
 [("column selection, sorting, filtering","summarize/src/main.rs summarize"),("serde of results","analyzeme/src/analysis.rs AnalysisResults")],
 [],["summarize summarize output, <stem>.json"])
p("C25","The flame graph shows exactly the collapsed stacks",
 "For every profile with well-nested intervals the flame graph tool produces an SVG in which every frame names a label in its chain of callers and states the total time spent in that chain and below, over all threads. The root frames add up to the time spanned by the profile. Every stack wide enough to be drawn appears.",
 ["inputs"],
 "all small well-nested profiles over labels, ties and threads",
 "The flame graph tool has no test.",
 ["flamegraph/src/main.rs","analyzeme/src/stack_collapse.rs"],
 [("collapsed stacks handed to the renderer","flamegraph/src/main.rs")],
 [],["rustc.svg"])
p("C26","Event time queries agree exactly with the recorded times and values",
 "For every pair of recorded events, one contains the other exactly if it is an interval and the other is an interval or instant lying within it, ends included; an instant or integer contains nothing. Duration, start, end, integer value and the type tests return exactly what was recorded, and nothing where the event has no such thing. A point in time lies in an interval's timestamp from its start up to, not including, its end. Full events, lightweight events and payloads give the same answers, in both file formats.",
 ["inputs"],
 "all ordered pairs of intervals, instants and integers over grids of times and all power-of-two times, at several start times",
 "Only the analyses use these queries in tests, on a few distinct intervals; equal ends, empty intervals, instants at the ends and integers are not sampled.",
 ["decodeme/src/event_payload.rs","decodeme/src/lightweight_event.rs","decodeme/src/event.rs"],
 [("containment","decodeme/src/event_payload.rs EventPayload::contains"),("point containment, ends, duration","decodeme/src/event_payload.rs Timestamp")],
 [],["return values of the queries"])
p("C27","A profile assembled in memory holds exactly the events described",
 "For every sequence of calls of the in-memory profile builder, with intervals nested by their closures, the resulting profile contains one event per call in completion order (nested events before the enclosing interval) with the given kind, label, arguments, thread and times or value, however many there are. Times or values that cannot be stored, and intervals ending before they start, are refused rather than stored differently. Its analyses equal those of a recorded profile with the same events.",
 ["histories","inputs"],
 "all bounded call sequences with nesting, all boundary values with all special texts, event counts across page sizes",
 "The builder is used by tests as a given; nothing checks what it builds beyond a dozen small fixed traces.",
 ["analyzeme/src/profiling_data.rs"],
 [("builder","analyzeme/src/profiling_data.rs ProfilingDataBuilder"),("reading from separate buffers","decodeme/src/lib.rs EventDecoder::from_separate_buffers")],
 [],["ProfilingData::iter_full of the assembled profile"])
p("C28","Tools fail visibly on unusable input and never alter what they read",
 "Every command of every tool, given in any position an input that is missing, a directory, not a profile, of an unsupported version or without event data, ends with a failure status and a message, which mentions an out-dated version where there are only files of the old three-file format; another file next to an unusable input is never used in its place; the viewer, summarize, stack-collapse and flame-graph tools then leave no new file. The same holds for missing or surplus arguments and for options that are unknown or have an unusable value. With a readable profile, named by stem or full name, relative or absolute, the command succeeds with the same result whichever way it is named. No command changes or removes a profile or any other file apart from the one it is documented to write.",
 ["configurations","inputs"],
 "every command x kind of unreadable input x argument position x name form; every command x name form x file format",
 "No test runs any of the command line tools.",
 ["mmview/src/main.rs","summarize/src/main.rs","crox/src/main.rs","flamegraph/src/main.rs","stack_collapse/src/main.rs","mmedit/src/main.rs","analyzeme/src/profiling_data.rs"],
 [("errors propagated from main","*/src/main.rs main"),("stem to file name","analyzeme/src/profiling_data.rs ProfilingData::new")],
 [],["exit status, stderr, directory contents before and after"])
p("C29","The counter asked for is the one used and named in the profile, or is refused",
 "Asking for a counter by name yields exactly the counter of that name, or an error if it is unavailable on the machine; any other text is refused with an error that quotes it. A profile records the name and units of the counter it was recorded with, and with the wall-time counter event times are nanoseconds since the profiler's counter was created. Creating a profiler without naming a counter uses wall time.",
 ["inputs","configurations"],
 "all names one edit away from a valid one, all short names, every valid name",
 "One test creates the wall-time counter; names, descriptions and units are never compared.",
 ["measureme/src/counters.rs","measureme/src/profiler.rs"],
 [("name dispatch","measureme/src/counters.rs Counter::by_name"),("description","measureme/src/counters.rs describe_as_json")],
 [],["Result of Counter::by_name","metadata JSON of the profile"])
p("C30","A tool that cannot write its whole result fails visibly",
 "For every tool that reads profiles and every point at which writing its result (its output file, or what it prints) begins to fail, for example because the disk is full, the tool ends with a failure status and a message on standard error. It ends successfully only if the whole result was written. The profiles it reads are unchanged either way.",
 ["fault_sequences"],
 "every number of bytes that can still be written, for every command of every tool, for results within one write buffer and of many buffers",
 "No test runs any of the command line tools, and a test's disk is never full; results smaller than a write buffer are written only when the buffer is dropped, where errors vanish.",
 ["mmview/src/main.rs","summarize/src/main.rs","crox/src/main.rs","flamegraph/src/main.rs","stack_collapse/src/main.rs","mmedit/src/main.rs"],
 [("buffered writers and their flush","crox/src/main.rs, stack_collapse/src/main.rs, summarize/src/main.rs write_results_json"),("printing","mmview/src/main.rs, summarize/src/main.rs, summarize/src/aggregate.rs")],
 [],["exit status, stderr, the written file"])
p("C31","What the tools output depends only on what was recorded",
 "For every profile and every command of every tool, running the command again gives the same output byte for byte, whatever random hash seeds the process gets and whatever its environment variables are, also when many items have equal figures. Profiles with the same content give the same output however their strings are stored, whichever ids they have, however their streams are cut into pages, and in either supported file format. (The colours of a flame graph, which its renderer picks at random, are left out, and truncating a profile depends on its pages.)",
 ["inputs","environments"],
 "profiles x commands x hash seeds; profiles x commands x forms of storage; every combination of environment variables",
 "No test runs any of the command line tools; an order that depends on hash seeds shows only in some runs, and only where figures are equal.",
 ["summarize/src/main.rs","summarize/src/diff.rs","summarize/src/aggregate.rs","analyzeme/src/analysis.rs","analyzeme/src/stack_collapse.rs","crox/src/main.rs","mmview/src/main.rs","flamegraph/src/main.rs"],
 [("order of labels and artifacts","summarize/src/diff.rs calculate_diff, analyzeme/src/analysis.rs perform_analysis"),("order of stacks","analyzeme/src/stack_collapse.rs collapse_stacks")],
 [],["standard output and written files"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
