"""the checks: how each property is explored"""
common_assumptions = [
    "gcc 13 on x86-64, IEEE double arithmetic; the library is compiled from source/c-precompiled as one unit with -Og (thread checks -O1)",
    "exploration is exhaustive within the stated bounds only"]
not_applicable = {
    "D01": "a statement about continuous frequency responses: no finite state or choice space decides it, sampling a grid of frequencies would be testing; C03 decides the kernel definitions instead",
    "D02": "a statistical statement about unbounded sequences, not decidable by enumerating bounded behaviours; R01 decides equality with the reference generator instead",
}
checks = {}
def C(id, parts, bounds, note, technique="exhaustive enumeration of inputs and operation histories on the real code against a reference model", **k):
    if isinstance(parts, str): parts = [parts]
    parts = [{"src": x} if isinstance(x, str) else x for x in parts]
    checks[id] = dict(parts=parts, bounds=bounds, note=note, technique=technique, **k)

C("A01", "A01.c", "arrays of length 0 to 3 (thorough: 4) and of 23 sizes up to 66003 elements in 8 patterns over 5 to 7 values per type, 27 operations, all scalar arguments of the alphabets",
  "complete for the bounded arrays and alphabets; trusts the per-element definitions in the check and AddressSanitizer for stray writes")
C("A02", "A02.c", "arrays of length 1 to 3 (thorough: 4) and of 23 sizes up to 66003 elements in 8 patterns over 6 to 7 values, all targets of the alphabets, in place and separate output",
  "complete for the bounded arrays and alphabets; rounding of times is accepted within half a unit")
C("A03", "A03.c", "arrays of length 0 to 4 (thorough: 5) and of 20 to 23 sizes up to 66003 elements in 8 patterns over 4 values, all valid indices, counts and limits",
  "complete for the bounded arrays; in place operation is checked only where documented")
C("A04", "A04.c", "sorting: all arrays of length 1 to 8 over 3 to 5 values (all duplicate patterns) and all subranges up to length 5, 6 shapes of 18 sizes up to 66003 elements; shuffling: all draws for length 0 to 5, 20 generator states for 23 sizes up to 66003 elements",
  "complete for the bounded arrays; shuffle draws are enumerated by constructing generator states that yield chosen outputs")
C("A05", "A05.c", "permutations of up to 6 (thorough: 7) elements, compositions of sums up to 11 (14), all digit sequences of up to 4 digits in bases 1 to 4, all start values, 5 larger sets of up to 70001 sequences",
  "complete for the bounded sizes against brute force ranks")
C("A06", "A06.c", "arrays of up to 4 (thorough: 5) elements over 3 to 5 values up to 2^32 - 1 and with distinct values, all pairs of 12 sizes up to 66003 in 4 patterns", "complete for the bounded arrays; rounding is accepted within half a unit")
C("R01", "R01.c", "10 seeds, all sequences of 2 (thorough: 3) operations out of 15 and 2 out of 13 on the state of the library, all ranges of the alphabets including those that force rejection",
  "complete for the bounded sequences against an independent implementation of the published generator")
C("R02", "R02.c", "distributions of size 1 to 4 (thorough: 5) with weights 0 to 3, every possible draw (up to 3 draws), binary arrays of 13 sizes over 512 bit patterns, 301 and 5003 elements with 4 weightings and 20 seeds",
  "complete for the bounded distributions; draws are enumerated by constructing generator states that yield chosen outputs")
C("T01", "T01.c", "arrays of length 1 to 5 (thorough: 6) and of 20 to 23 sizes up to 66003 elements (inharmonicity: 301) in 8 patterns over 6 values for each of 8 statistics and both types", "complete for the bounded arrays; reference in extended precision")
C("U01", "U01.c", "all arguments of small integer grids per function and of 12 larger ones up to 2147483649", "complete on the grids")
C("U02", "U02.c", "all ids from -5 to 34 in 7 groups", "complete for the ids and groups")
C("U03", "U03.c", "arrays of 1 to 5 (thorough: 6) elements out of 7 values and 8 sizes up to 66003 in 5 patterns, in both precisions; pairs of arrays of up to 2 (3) elements and 4 larger sizes with a difference at any of 7 places, 5 margins", "complete for the bounded arrays; sums are compared with exact integer arithmetic")
C("U04", "U04.c", "all scripts of up to 3 (thorough: 4) uses of 8 status macros with 4 status ids, all sequences of up to 5 (6) of 10 operations on 5 registers with 1, 3 or 60 additions at once", "complete for the bounded scripts",
  technique="exhaustive enumeration of macro sequences on the real code against a reference model")
C("M02", "M02.c", "all sequences of up to 2 of 34 macros with each allocation failing, 7 to 300 uses in 102 orders, all sequences of up to 4 (thorough: 5) uses of 7 local and error memory operations with and without failure, 9 sizes for the allocation helpers", "complete for the bounded sequences", level="fault_enumeration",
  technique="exhaustive enumeration of macro sequences and allocation failures on the real code", rule="every sequence and failing allocation of the bounds; non-trivial if the failure was reached")
C("Q02", "Q02.c", "all sequences of up to 6 (thorough: 8) of 7 operations on arrays of up to 4 elements of two types, with none or one of the first three allocations failing; arrays of up to 66003 elements", "complete for the bounded sequences")
C("S01", "S01.c", "7 tree shapes with up to 3 leaf events at all times of a grid of 4 (thorough: 5), all partitions of the range from 2 or 3 first times, block remainders and part resolutions 0 to 3; the same trees with times scaled by 130 and at base times near 2^16 and 2^32; 40 and 300 events in 32 arrangements, 4 block size patterns and 3 first times; groups nested to 40 and maps nested to 9 levels",
  "complete for the bounded trees; events are recording user events, wave and noise events are decided by W01 and N01")
C("S02", "S02.c", "7 tree shapes with up to 3 leaf events at all times of a grid of 4 (thorough: 5), all partitions, all points of abandoning; the same trees with times scaled by 130 and near 2^32; 40 and 300 events with 16 arrangements and 4 block sizes; 1 to 2 events whose prepare function sets another end, first block at 0 to 2, all partitions", "complete for the bounded trees and histories")
C("S03", "S03.c", "7 tree shapes on a grid of 3 (thorough: 4), all partitions, a failure at the prepare call or any of the first four generate calls of any event and pairs of failures for flat lists; the same trees with times scaled by 130 and near 2^32; 40 and 300 events with a failure of one of 5 in one of 4 calls",
  "complete for the bounded trees and failures", level="fault_enumeration", technique="exhaustive fault enumeration over event trees and block partitions on the real code",
  rule="every tree, partition and failing callback of the bounds; non-trivial if the failure was reached")
C("S04", "S04.c", "up to 5 (thorough: 6) additions with up to 4 start times in all orders, with and without one failing allocation, preparing, all removal sequences; lists of up to 300 events in several orders", "complete for the bounded histories")
C("S05", "S05.c", "up to 2 (thorough: 3) operations per group out of add, append of scheduled events, events that set their end, and nested groups, 0 to 2 memory areas owned by the group, 3 onsets, 3 block partitions or no rendering; 9 to 300 events in 9 arrangements and 4 block sizes", "complete for the bounded programs")
C("S06", "S06.c", "sub-events of three kinds with durations up to 4 (thorough: 5), isolated and shared, all partitions, durations 301, 5003 and 70001 with 5 block sizes, a failure at each callback and temporary allocation", "complete for the bounded configurations and failures")
C("S07", "S07.c", "all sequences of up to 6 (thorough: 7) operations with none or one of the first three allocations failing, after up to 300 initial additions", "complete for the bounded histories")
C("W01", [{"src": "W01.c", "split": 5}, {"src": "W01.c", "suffix": "-3", "cflags": ["-Dsp_channel_count_limit=3"]}], "one and two channels, all combinations of set and unset amplitude, frequency and phase settings per channel, 2 tables, durations up to 4 (thorough: 6), all partitions with up to 3 free cuts; durations 301, 5003 and 70001 with 8 settings, 4 starts, 2 scales of frequencies and phases and 5 block sizes; the library built for three channels with 4 to 16 combinations of settings per channel", "complete for the bounded configurations against a directly written reference")
C("W02", "W02.c", "7 table sizes of up to 48000 plus both sine tables, all frequencies, modulations and start phases of small alphabets, up to 4 (thorough: 5) samples in all splits, 23 sizes up to 66003 samples in two", "complete for the bounded inputs")
C("N01", ["N01.c", {"src": "N01.c", "suffix": "-3", "cflags": ["-Dsp_channel_count_limit=3"]}], "5 configurations of the first and 7 of the second channel, pass and reject, durations up to 5 (thorough: 6) in all partitions, 33 and 41 samples in two, 301 in 3 block sizes and 66003, resolutions 1 to 3; the library built for three channels with the same settings per channel", "complete for the bounded configurations; random numbers and kernels come from the library functions decided by R01 and C03")
C("C01", "C01.c", "190 combinations of up to 66003 samples, 66003 coefficients and segment lengths; signals of up to 6 (thorough: 7) and responses of up to 5 (6) samples, all segmentations, separating values and small alphabets", "complete for the bounded lengths; linearity makes the separating values decide all values at a length")
C("C02", "C02.c", "up to 4 (thorough: 5) calls with 6 argument sets (lengths 1 to 5, two functions, two record sizes) and 3 to 4 segment lengths; one failing response function or allocation in up to 3 (4) calls; 2 to 3 (4) calls of the windowed sinc filters where any single argument changes; 3 calls with responses of 1 to 66003 and segments of 1 to 66003 samples in any order", "complete for the bounded histories and failures")
C("C03", "C03.c", "12 cutoffs times 8 (thorough: 10) transitions, 6 times 6 cutoff pairs and 36 transition pairs for bands, 1000 (4000) transitions for the length, kernels of up to 66667 coefficients, filters over 6 samples in all segmentations with a change at any point", "complete on the grids; reference kernels in extended precision")
C("C04", "C04.c", "radius up to 3 (thorough: 4) and 20 to 300 with 301 and 66003 samples, all unit vectors of signal and neighbours and small alphabets, all presences of neighbours, three segments of equal size", "complete for the bounded sizes; linearity makes unit vectors decide all values")
C("C05", "C05.c", "all basis vectors for every length up to 24 (thorough: 40), all small integer vectors up to length 5 (6), 26 lengths up to 2048 with every allocation failing", "complete for the bounded lengths; linearity makes basis vectors decide all values")
C("B01", ["B01.c", {"src": "B01.c", "suffix": "-5", "cflags": ["-Dsp_channel_count_limit=5"]}], "1 to 5 channels (interleaving: 1 to 5 and 255), sizes 0 to 6 (thorough: 9) and 17 sizes up to 66003, all offsets, all single allocation failures", "complete for the bounded sizes")

C("F01", "F01.c", "1 to 3 (thorough: 4) channels, 0 to 5 (7) frames, all splits into write and read calls, 8 value patterns, new and existing files; up to 70003 frames and 255 channels in 5 step sizes", "complete for the bounded files; the bytes of the file are compared with an independent writer")
C("F02", "F02.c", "files of up to 3 channels, 3 frames and 2 additional chunks (also 3 to 40 chunks and chunks of up to 70000 bytes): every truncation, 9 replacements of every header byte, 16 bit field replacements", "complete for the damage listed against an independent reader; sizes and rates no reader needs are unspecified")
C("F03", "F03.c", "writing, reading and rendering histories with up to 3 (thorough: 5) blocks, one failing or short stdio call at every position", "complete for single stdio failures of the histories; sp_file_close_write has no result and is only checked for release",
  level="fault_enumeration", technique="exhaustive fault enumeration at the stdio boundary of the real code", rule="every history and failing call position of the bounds; non-trivial if the failure was reached")
C("F04", "F04.c", "4 kinds of events at all places of a grid of 4 (thorough: 5), 4 render functions, all ranges, block sizes 1 to 4, durations 301, 3001 and 70001 with 5 block sizes and 4 starts, 1 and 2 channels, a failing prepare or one of the first three generate calls of any event", "complete for the bounded events; system() is a recording stand-in")
C("K01", "K01.c", "arrays of up to 4 (thorough: 5) values of small alphabets, spectra of up to 6 (8) samples, 21 sizes up to 66003 (spectra: 5003) of each in 8 patterns, every failing allocation and stdio call, 16 plots in succession", "complete for the bounded arrays; system() is a recording stand-in, gnuplot itself is not run")
C("K02", "K02.c", "arrays of up to 4 (thorough: 5) times out of 5 and samples out of 8 values and 21 sizes up to 66003, all octets and memory of up to 66003 octets, lists of up to 4 events over 4 times and of 17 and 300 events, durations of 0 to 11 seconds with 5 fractions at 4 rates and 6 block sizes", "complete for the bounded data")
C("S08", "S08.c", "lists of up to 5 elements with up to 2 (4 elements: 3; thorough: 5) links set to any element or none, lists of 17 and 257 elements with up to 2 wrong links at and around both ends and the middle", "complete for the bounded lists; exit() is a stand-in that returns to the check")
C("Q01", "Q01.c", "all sequences of up to 9 (thorough: 12) operations with up to four elements of two types; 300 and 70000 elements in bursts of 24 combinations of sizes", "complete for the bounded histories")
C("G01", "G01.c", "all strings of up to 6 (thorough: 9) letters over two letters (joins: 3 strings of up to 2 (3) letters, 300 and 1500 strings) and of 40, 301 and 5003 letters in 8 patterns, paths of up to 4 (5) or 40 components with any number existing, blocked by a file or dangling link or not, every failing allocation", "complete for the bounded strings and trees, inside a scratch directory")
C("E03", [{"src": "E03.c", "split": 7}], "paths of one segment of seven kinds with length up to 5 (thorough: 7) or two with lengths up to 3 (4) and any two reads, of three segments with lengths up to 2 (3) in all partitions, control points at every position; one cubic curve of length 10 with gaps; 40, 300 and 1500 segments and segments of length 300 and 33000 read in 7 step sizes, with and without a constant end", "complete for the bounded paths; bezier values are required to be near the exact curve and equal for every way of reading")
C("E01", [{"src": "E01.c", "split": 7}], "2 to 5 (thorough: 6) points, lengths up to 9 (14), all non-decreasing integer positions, 2 to 5 values, 3 to 6 curvatures, samples and times, variants, failing allocations; lengths 300 and 1024 with up to 4 points; 2 to 24 points in 4 lengths up to 66003 with 3 spreads", "complete for the bounded paths; curves are required to stay near the exact curve")
C("E02", [{"src": "E02.c", "split": 7}], "3 to 5 (thorough: 6) points, 8 lengths up to 1024, all fractions from an alphabet of 4, 2 to 4 values, 3 to 4 curvatures, two scales; 3 to 24 points in 4 lengths up to 66003", "complete for the bounded envelopes")
C("M01", "M01.c", "40 functions and short histories, 9 kinds of events rendered in 3 ways; each of the first 70 (thorough: 120) allocations fails, alone or with all later ones", "complete for the scenarios: none makes more allocations than the bound",
  level="fault_enumeration", technique="exhaustive allocation fault enumeration on the real code", rule="every scenario and failing allocation; non-trivial if the failure was reached")
SCHED = "systematic exploration of all thread schedules up to a preemption bound on the real code, with race, deadlock and memory monitors"
C("P03", [{"src": "P03.c", "sched": True, "split": 14}], "1 to 3 workers, 0 to 4 (thorough: 5) tasks, 1 to 3 (4) futures, tasks starting tasks, memory allocation failing while finishing, futures starting and touching futures, one spurious wakeup, at most 1 to 3 (thorough: 2 to 4) preemptions depending on the size; 9 to 300 tasks and futures with at most one deviation from running threads in turn",
  "complete for the bounded schedules; visible steps are the synchronisation operations and atomics, between which the code is checked to be race free", SCHED)
C("P04", [{"src": "P04.c", "sched": True, "split": 10}], "1 to 2 (thorough: 3) initialisations of 0 to 3 workers with a failure at every thread creation or allocation, pools of 1 to 4 workers, 0 to 2 (thorough: 3) preemptions, limits of the worker count",
  "complete for the bounded histories and schedules; a failing allocation during shutdown is not considered", SCHED)
C("P01", [{"src": "P01.c", "sched": True, "split": 12}], "0 to 3 events with 5 placements, 9 trees of parallel groups and maps, 2 to 3 wave events, 1 to 2 noise events; 1 to 3 workers, 1 to 2 (thorough: 3) blocks, at most 1 to 2 (thorough: 2 to 3) preemptions; 2 to 1200 events and events of up to 70001 samples with at most one deviation from running threads in turn; 1 to 2 events whose prepare function sets another end, in all partitions",
  "complete for the bounded schedules; visible steps are synchronisation operations, atomics and event callbacks, between which the code is checked to be race free. a sleep may end early at most as often as preemptions are allowed", SCHED)
C("P02", [{"src": "P02.c", "sched": True, "split": 12}], "6 event trees of 1 to 3 events in parallel groups, every event failing in its prepare or one of two generate calls, pairs of failures, a failure of each allocation alone or of all later ones; 1 to 2 (thorough: 3) workers, two blocks, at most 1 to 2 (thorough: 3) preemptions; 9 and 40 events with a failure of the first, middle or last one and at most one deviation from running threads in turn",
  "complete for the bounded schedules and failures", SCHED)
