"""the properties. gen.py writes properties.jsonl from this table"""
SP = "source/c-precompiled/sph-sp/"
FO = "source/c/foreign/sph-sc-lib/sph-sp/"
properties = []


def P(id, title, statement, over, text, why, files, mechanism, observe=None):
    properties.append({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mechanism], "observe_at": observe or ["return values and output arrays of the public functions"],
                    "hook_needed": None}})


# --- sequencer
P("S01", "Rendering does not depend on how time is split into blocks",
  "Rendering an event tree (wave, map, group and user events) over a range gives the same samples for every way of cutting the range into consecutive blocks. "
  "Every event contributes to each sample with start <= time < end of its schedule exactly once, with event-relative times, and nothing outside of it; contributions are added to what the block already contains.",
  "inputs configurations histories", "all partitions of the range into consecutive blocks, for all event layouts (start, end, nesting) over a small time grid",
  "the tests render with one or two fixed block sizes and fixed layouts; block boundary arithmetic must hold for every partition",
  [SP + "sequencer.c"], [("sp_seq, sp_event_block_generate, sp_group_generate", SP + "sequencer.c")])
P("S02", "Events are prepared once, generated in time order and freed once",
  "While a sequence is rendered block after block, each event is prepared at most once and only when its first overlapping block is rendered, gets consecutive non-overlapping generate calls that cover its duration, and is freed exactly once, after its end has passed or when the sequence is freed, whichever is first. "
  "No event is generated before it is prepared or after it is freed; the generate function, free function and end that preparing sets are the ones that count from then on.",
  "histories inputs", "all small event layouts, all block partitions and all points at which rendering is abandoned",
  "tests check samples only, not how often and when callbacks run under different partitions",
  [SP + "sequencer.c"], [("sp_seq", SP + "sequencer.c"), ("sp_event_list_free", SP + "sequencer.c")])
P("S03", "A failing event aborts the sequence with its status and leaks nothing",
  "If preparing or generating an event fails, sequential rendering of the sequence or group stops and returns exactly that error status, no event is prepared again after its preparation succeeded, every event has been released exactly once and the sequence is empty when it returns; freeing the sequence again is harmless. "
  "Without failures the success status is returned.",
  "fault_sequences histories", "a failure at each prepare and each generate call of every small sequence, group or map event, in every block",
  "no test makes an event fail", [SP + "sequencer.c"], [("sp_seq error path", SP + "sequencer.c"), ("sp_group_generate", SP + "sequencer.c")])
P("S04", "Event lists stay consistent doubly linked lists in time order",
  "After any sequence of additions, prepares and removals the event list contains exactly the added and not removed events, links are consistent in both directions, and the prepared list is ordered by ascending start time. Freeing a list calls the free function of each contained event exactly once and leaves an empty list. Validation accepts every such list.",
  "histories", "all sequences of additions with start times in all relative orders, of removals of any element, and reversal, up to the depth bound",
  "the tests add a handful of events in one order", [SP + "sequencer.c"],
  [("sp_event_list_add, sp_event_list_reverse, sp_event_list_remove_element, sp_event_list_free", SP + "sequencer.c")])
P("S05", "Groups place sub-events by start time and grow to contain them",
  "Adding an event to a group extends the end of the group to at least the end of that event, appending places it directly at the previous end of the group and keeps its duration, and scheduling an event gives it exactly the requested start, duration and (if given) configuration. "
  "A group rendered at any offset produces the sum of its sub-events shifted by the start of the group, at any nesting depth.",
  "inputs histories programs", "all sequences of add and append operations with small starts and durations, nested up to the depth bound",
  "tests use two or three sub-events with fixed times", [SP + "sequencer.c"], [("sp_group_add, sp_group_append, sp_event_schedule, sp_group_generate", SP + "sequencer.c")])
P("S06", "Map events transform exactly the samples of their sub-event",
  "An isolated map event passes the map function the complete output of its sub-event for each block, computed on a zeroed buffer, and adds nothing else to the output; a non-isolated one passes the current output. The sub-event is prepared, generated and freed with the same times as the map event, and temporary buffers are released even on failure.",
  "inputs configurations fault_sequences", "all block partitions, both isolation modes, all pre-filled output contents of a small alphabet, a failure at each callback",
  "one fixed map event is tested", [SP + "sequencer.c"], [("sp_map_event_generate, sp_map_event_isolated_generate, sp_map_event_prepare, sp_map_event_free", SP + "sequencer.c")])
P("S07", "Event-owned memory is released exactly once by its own handler",
  "Every address registered with an event is passed exactly once to the handler it was registered with when the memory of the event is freed, no matter how many addresses are added in how many reservation steps, and the event can be used again afterwards. A failed reservation is reported and leaves the registered addresses unchanged.",
  "histories fault_sequences", "all sequences of reserve, add, fixed add and free operations up to the depth bound, with an allocation failure at every allocation",
  "tests add two addresses", [SP + "sequencer.c", FO + "array3.h"], [("sp_event_memory_ensure, sp_event_memory_add_with_handler, sp_event_memory_free", SP + "sequencer.c")])
# --- parallel
P("P01", "Parallel rendering equals sequential rendering on every schedule",
  "Rendering a sequence or group in parallel gives the same output as rendering it sequentially, for every interleaving of the worker threads, prepares, generates and frees each event as sequential rendering does, and always terminates. No two threads access the same memory without synchronisation.",
  "schedules inputs", "all thread interleavings up to the preemption bound for sequences of up to three overlapping events, one to three workers, several block partitions",
  "a test run sees one operating system schedule", [SP + "sequencer.c", FO + "futures.c", FO + "thread-pool.c"],
  [("sp_seq_parallel, sp_seq_parallel_future_f", SP + "sequencer.c"), ("sph_future_new, sph_future_touch", FO + "futures.c")])
P("P02", "A failure during parallel rendering is reported and stops cleanly",
  "If preparing or generating an event fails or memory runs out while rendering in parallel, the call returns a failure status of one of the failing events (or the memory error) only after all started work has finished, leaks no memory, has emptied the sequence, and each event is freed exactly once.",
  "schedules fault_sequences", "all interleavings up to the preemption bound combined with a failure of each event callback and of each allocation",
  "tests contain neither failures nor controlled schedules", [SP + "sequencer.c"], [("sp_seq_parallel error path", SP + "sequencer.c")])
P("P03", "Thread pool runs each task exactly once and shuts down cleanly",
  "Each task given to the pool, and each future, is executed exactly once, tasks by a worker; touching a future blocks until its function has returned and yields its result together with all memory effects. Finishing a pool with waiting returns after every queued task has run, all threads are joined, nothing is leaked and no thread is left waiting, on every schedule. Running out of memory while finishing is reported, and finishing can be repeated.",
  "schedules histories", "all interleavings up to the preemption bound of one to three workers with up to three tasks, including spurious wakeups and tasks that enqueue tasks",
  "no test controls the schedule", [FO + "thread-pool.c", FO + "futures.c", FO + "queue.h"],
  [("sph_thread_pool_worker, sph_thread_pool_enqueue, sph_thread_pool_finish", FO + "thread-pool.c"), ("sph_future_eval, sph_future_touch", FO + "futures.c")])
P("P04", "Library start and shutdown can be repeated and fail cleanly",
  "Initialising sets the requested channel count and sample rate, usable tables and the given number of workers; deinitialising joins all threads and frees all memory, and the library can then be initialised again any number of times. If a thread cannot be created or memory is exhausted, initialisation or pool creation returns a failure, leaving no running threads and no leaked memory after deinitialisation.",
  "histories fault_sequences schedules configurations", "all sequences of initialise and deinitialise calls with small configurations, with a failure at every thread creation and allocation",
  "tests initialise once and never fail", [SP + "main.c", FO + "futures.c", FO + "thread-pool.c"], [("sp_initialize, sp_deinitialize", SP + "main.c"), ("sph_future_init, sph_future_deinit", FO + "futures.c")])
# --- generators
P("W01", "Wave events follow their amplitude, frequency and phase arrays exactly",
  "Each sample a wave event adds to its channel is the waveform value at the phase accumulated from the configured or modulated frequency plus phase offset or modulation, times amplitude and amplitude modulation, independent of block partition. Channels left unused take the configuration of the first channel, and all other channels stay untouched.",
  "configurations inputs histories", "all combinations of fixed and modulated amplitude, frequency and phase per channel over a small value alphabet and all block partitions",
  "tests render a few fixed configurations and mostly check that something was produced", [SP + "sequencer.c"], [("sp_wave_event_prepare, sp_wave_event_generate", SP + "sequencer.c")])
P("W02", "Oscillators keep phase inside the table and continuous across calls",
  "Phases stay below the waveform size for every frequency and modulation, output is the table value at the running phase times amplitude and, where given, the amplitude array added to the previous content, and generating n samples in pieces leaves the same output and phase as generating them at once.",
  "inputs histories", "all frequency, modulation, start phase and table size combinations of a small alphabet and all splits of the output",
  "tests generate one period of one frequency", [SP + "main.c"], [("sp_wave, sp_sine, sp_sine_lfo, sp_phase, sp_phase_float", SP + "main.c")])
P("N01", "Filtered noise events are reproducible and independent of block size",
  "For a given random state a noise event yields random noise filtered with the band of each channel, times amplitude and modulation, limited to the range -1 to 1. With fixed bands the samples are the same for every block partition; modulated bands are updated at each resolution step counted from the start of each block. It never writes outside its block, touches only its channels and frees everything it allocated.",
  "configurations inputs histories", "all small channel configurations, resolutions, durations and block partitions",
  "tests render one configuration and check bounds of the values", [SP + "sequencer.c", SP + "filter.c"], [("sp_noise_event_prepare, sp_noise_event_generate, sp_noise_event_free", SP + "sequencer.c")])
# --- filters
P("C01", "Convolution in pieces equals convolution of the whole signal",
  "Convolving a signal segment by segment with a carried over tail gives, for every segmentation, the same samples as the mathematical convolution of the whole, including when segments are shorter than the impulse response. Nothing is read or written outside the given arrays.",
  "inputs histories", "all segmentations of small signals with all impulse response lengths and integer sample values of a small alphabet",
  "tests convolve two or three fixed splits", [SP + "main.c", SP + "filter.c"], [("sp_convolve, sp_convolve_one", SP + "main.c")])
P("C02", "Convolution filters carry their tail through impulse response changes",
  "A filter state created on first use and updated with changing arguments always filters with the impulse response of the latest arguments, keeps the pending tail of earlier input so that output is the sum over all inputs of each input convolved with the response in use at that time, and is recalculated only if the arguments changed. Errors of the response function are returned and leave the previous state usable, and freeing the state releases everything.",
  "histories fault_sequences", "all sequences of argument changes (response lengths 1 to 4), segment lengths and response function or allocation failures up to the depth bound",
  "tests use one or two fixed argument sets", [SP + "filter.c"], [("sp_convolution_filter, sp_convolution_filter_state_set, sp_convolution_filter_state_free", SP + "filter.c")])
P("C03", "Windowed-sinc kernels have odd length, symmetry and unit gain",
  "For every cutoff and transition width the low pass kernel has odd length of at least 4 divided by the transition, is symmetric and has unit sum; high pass, band pass and band reject kernels are the spectral inversions and combinations of the low pass kernels they are defined by. The kernels produced directly, through argument records and through the filter functions agree.",
  "inputs configurations", "all cutoff and transition pairs of a grid, all four kernel types",
  "tests check one cutoff and mostly the length", [SP + "filter.c", SP + "main.c"],
  [("sp_windowed_sinc_ir, sp_windowed_sinc_lp_hp_ir, sp_windowed_sinc_bp_br_ir", SP + "filter.c"), ("sp_spectral_inversion_ir, sp_spectral_reversal_ir", SP + "filter.c")])
P("C04", "Moving average is exact at every position and independent of splitting",
  "Each output of the moving average is the mean of the window centred on that sample, where samples beyond the ends of the signal are taken from the neighbouring segments if given and otherwise by the documented reflection, so that filtering in segments with neighbours equals filtering the whole.",
  "inputs", "all signals over a small alphabet up to the length bound, all radii, with and without each neighbour",
  "tests check a few positions of one signal", [SP + "filter.c"], [("sp_moving_average", SP + "filter.c")])
P("C05", "Fourier transform is the defined transform and its inverse restores input",
  "For every supported length the forward transform equals the discrete Fourier transform sum of the input and the inverse transform of the result, divided by the length, equals the input. Lengths that are not powers of two work alike, the circular convolutions based on the transform equal the sum of their definition, inputs of convolutions stay unchanged, and failures are reported.",
  "inputs", "all lengths up to the bound and every basis vector plus all small integer vectors for short lengths",
  "tests use one length and one vector", ["source/c/foreign/nayuki-fft/fft.c", SP + "main.c"], [("sp_fft, sp_ffti", SP + "main.c"), ("Fft_transform, Fft_convolveComplex", "source/c/foreign/nayuki-fft/fft.c")])
# --- files
P("F01", "Wav files read back exactly what was written",
  "Any blocks of samples written to a new file, in any number of write calls, can be read back in any number of read calls with the same channel order and values at single float precision, and after closing the header states the channel count, sample rate and exact size of the written data.",
  "inputs histories", "all channel counts, write splits, read splits and sample values of a small alphabet", "the test writes and reads one block",
  [SP + "file.c"], [("sp_file_open_write, sp_file_write, sp_file_close_write, sp_file_open_read, sp_file_read", SP + "file.c")])
P("F02", "Malformed wav files are rejected, well formed ones accepted",
  "Opening a file for reading succeeds only if it has a valid header of the supported format and finds the sample data behind any other chunks; every truncation or corruption of a header field that reading depends on is a failure. A read that reaches the end of the data delivers the remaining samples, and a read at the end returns the end-of-file status. The data chunk is taken to be the last one. Nothing is leaked and no file stays open after a failed open.",
  "inputs", "every truncation length and every replacement of each header byte by values of a small alphabet, with zero to two extra chunks", "tests never open a malformed file",
  [SP + "file.c"], [("sp_file_open_read", SP + "file.c")])
P("F03", "File errors are reported and release file handles",
  "If opening, reading, writing or seeking fails or transfers less than requested, the call that needed it returns a failure status, no memory is leaked and every opened file can be and is closed. Closing itself has no result.",
  "fault_sequences", "a failure or short transfer at every single stdio call of writing, reading and rendering to a file", "no test injects errors",
  [SP + "file.c", SP + "main.c"], [("sp_file_write, sp_file_read, sp_block_to_file, sp_render_range_file", SP + "file.c, " + SP + "main.c")])
P("F04", "Rendering to a file, to a block and directly agree",
  "Rendering an event for any range to a block gives the samples of that range, rendering the same range to a file stores the same samples (as single floats) with the configured channel count and rate, and both prepare, generate completely and free the event and return its errors.",
  "inputs configurations fault_sequences", "all small ranges, block sizes, channel counts and event durations, a failure at each callback", "one range is rendered by the tests",
  [SP + "main.c"], [("sp_render_range_file, sp_render_range_block, sp_render_file, sp_render_plot", SP + "main.c")])
P("M01", "Running out of memory is reported and leaks nothing",
  "If any single memory allocation made by a public function fails, that function returns a failure status and everything allocated by it before is released or remains owned by the object the caller frees. Success is never reported with missing memory and nothing crashes.",
  "fault_sequences", "the failure of each single allocation, and of all allocations from each point on, in every allocating public function and in complete renderings", "no test injects allocation failures",
  [SP + "sequencer.c", SP + "filter.c", SP + "arrays.c", SP + "path.c", SP + "main.c", SP + "statistics.c"],
  [("status_require and local/error memory registers", SP + "main.h, " + FO + "memreg.h"), ("sph_helper_primitive_malloc and variants", FO + "helper.c")])
P("M02", "Memory belongs to the event, the function or the caller, as declared",
  "The interface macros that create arrays, paths and envelopes for an event yield the same values as the functions and memory that is released exactly once with the event; local memory is released whenever the function is left, error memory exactly if it is left with a failure, both through their own handlers. If an allocation fails, including the one that registers the memory, the status says so and nothing leaks. The allocation helpers return memory of the full size, zeroed, terminated or with its previous content as defined, and leave the pointer as it was on failure.",
  "fault_sequences histories", "all sequences of macro uses up to the bound with each allocation failing", "tests use few of these macros and never run out of memory",
  [SP + "sequencer.h", SP + "main.h", FO + "helper.c", FO + "memreg.h"], [("sp_event_samples_srq, sp_event_path_samples_srq, sp_event_envelope_zero_srq and variants", SP + "sequencer.h"), ("sp_local_samples_srq, error_memory_add, local_memory_add", SP + "main.h"), ("sph_helper_malloc, sph_helper_realloc", FO + "helper.c")])
P("B01", "Blocks and interleaving address every sample of every channel",
  "A new block has the requested channels and size filled with zero; copying, zeroing, offsetting and freeing act on exactly its samples of all channels, an offset block shares its memory with the original from the offset on, and interleaving followed by deinterleaving restores the data.",
  "inputs", "all channel counts, sizes and offsets up to the bound with distinct sample values", "tests use one size",
  [SP + "main.c"], [("sp_block_new, sp_block_copy, sp_block_zero, sp_block_with_offset, sp_block_free, sp_interleave, sp_deinterleave", SP + "main.c")])
# --- arrays
P("A01", "Elementwise array operations compute each element and nothing else",
  "Each elementwise operation on sample and time arrays (add, subtract, multiply, divide by value or array, square, set, copy, and/or/xor with limit, limit, blend, mask, cumulative sum, additions, multiplications, divisions) gives for every index the defined result, leaves other memory untouched, and subtraction of times never goes below zero.",
  "inputs", "all arrays up to length three over an alphabet with zero, one, small and extreme values, for every operation", "tests check one array per function and not all functions",
  [SP + "arrays-template.c", SP + "arrays.c"], [("arrays_template and array functions", SP + "arrays-template.c, " + SP + "arrays.c")])
P("A02", "Scaling and conversion of arrays reach their targets exactly",
  "Scaling to a maximum, sum or gain yields arrays with exactly that maximum, sum or gain in unchanged proportions (within rounding for times), zero input to scaling to a maximum or gain is left unchanged without undefined values, sums of samples are accurate even if large terms cancel, conversions between times, samples and units round as defined, and results do not depend on input and output being the same array where that is supported.",
  "inputs", "all arrays up to length three over a small alphabet and all targets of a small alphabet", "tests use one array", [SP + "arrays.c", SP + "statistics.c"],
  [("sp_times_scale_y, sp_samples_scale_y, sp_times_scale_sum, sp_samples_scale_sum, sp_samples_set_gain, sp_samples_set_unity_gain, sp_samples_to_times, sp_samples_scale_to_times", SP + "arrays.c")])
P("A03", "Selecting, inserting, removing and searching keep the right elements",
  "Range, select, extract, greater-than search, containment, minimum, maximum, equality, insertion of space, removal, subdivision and bit expansion return exactly the elements the arguments designate in the original order, for every index and count including the ends.",
  "inputs", "all arrays up to length four over a small alphabet with all valid indices and counts", "tests use one array and index", [SP + "arrays.c", SP + "arrays-template.c"],
  [("sp_times_remove, sp_times_insert_space, sp_times_extract_in_range, sp_times_select, sp_times_bits_to_times, ...", SP + "arrays.c")])
P("A04", "Sorting, shuffling, reversing and swapping are permutations",
  "Sorting yields the ascending arrangement of the same elements for every input, reversing writes the exact mirror image to another array, swapping exchanges two elements, and shuffling yields a permutation of its input that depends only on the random draws, with every arrangement reachable.",
  "inputs", "all arrays up to length six over a small alphabet (all duplicate patterns), all random draws for small sizes", "tests sort one array",
  [SP + "arrays.c", SP + "arrays-template.c", FO + "quicksort.h"], [("quicksort", FO + "quicksort.h"), ("sp_shuffle", SP + "arrays.c"), ("reverse", SP + "arrays-template.c")])
P("A05", "Combinatorial enumerations are complete, duplicate free and counted right",
  "Permutations, compositions, digit sequences and sequence increments enumerate exactly all arrangements once each, each with the right size, the counting functions return exactly the number of such arrangements, and the returned arrays are independently owned.",
  "inputs", "all sizes up to the bound, compared with brute force enumeration", "tests check one size and part of the result",
  [SP + "arrays.c", SP + "statistics.c"], [("sp_times_permutations, sp_times_compositions, sp_times_sequences, sp_times_sequence_increment", SP + "arrays.c"), ("sp_permutations_max, sp_compositions_max, sp_set_sequence_max", SP + "statistics.c")])
# --- random
P("A06", "Seamless transitions move linearly to the mirrored neighbour",
  "sp_times_make_seamless_right copies a and replaces its last min(size of a, half the size of b) elements by values on the way from the element to its mirrored correspondent at the beginning of b: the k-th of n replaced elements is at k / n of the way, rounded, and the last one equals the first element of b. sp_times_make_seamless_left copies b and does the same, mirrored, for its first min(size of b, half the size of a) elements towards the end of a, so that the first one equals the last element of a. Inputs are not changed, and nothing outside of the arrays is read or written.",
  "inputs", "all pairs of arrays up to the length bound over a small alphabet, and pairs of larger sizes in patterns", "the functions are marked untested and have no tests", [SP + "arrays.c"],
  [("sp_times_make_seamless_right, sp_times_make_seamless_left", SP + "arrays.c")])
P("R01", "Random numbers follow the reference generator for every seed",
  "For every seed the generator yields the reference xoshiro sequence seeded by splitmix, derived integers and floats are the defined functions of it inside their documented ranges, array versions equal repeated single draws, the functions without a state argument draw from the state of the library, and equal states give equal sequences.",
  "inputs histories", "all seeds of a grid, all operation sequences up to the depth bound and all ranges of a small alphabet", "tests check one seed",
  [FO + "random.c", SP + "main.h"], [("sph_random_u64, sph_random_state_new, bounded and float variants", FO + "random.c")])
P("R02", "Discrete random selection respects the cumulative distribution",
  "A random draw over a cumulative distribution returns the first index whose cumulative weight exceeds the drawn value, never an index of weight zero or outside the distribution, unique draws do not repeat, and random binary arrays contain the bits of the generator only.",
  "inputs", "all distributions up to length four over a small weight alphabet, with every value the random draw can take", "tests draw a few values from one distribution",
  [SP + "arrays.c"], [("sp_time_random_discrete, sp_times_random_discrete, sp_times_random_discrete_unique, sp_times_random_binary, sp_times_select_random", SP + "arrays.c")])
P("T01", "Statistics equal their mathematical definition for all inputs",
  "Range, mean, deviation, median, centre, kurtosis, skewness and inharmonicity of every array equal their definitions, do not depend on or change the input order except where defined by position, and agree between time and sample arrays of equal values.",
  "inputs", "all arrays up to length five over a small value alphabet, odd and even sizes", "tests check one array per function", [SP + "statistics.c"], [("sp_stat_times_*, sp_stat_samples_*", SP + "statistics.c")])
# --- paths
P("E01", "Paths pass through their points and fill every sample",
  "A path array has the requested length with every sample set, for points at whole positions linear segments interpolate exactly between given points, samples of curved segments between points of different value lie on the quadratic curve through the end points within half a sample, time versions are the rounded sample versions, and convenience variants agree with the general function.",
  "inputs", "all point counts from two to five with all x orderings and y values of a small alphabet and curvatures of a small alphabet", "tests check few samples of few paths",
  [SP + "path.c", FO + "spline-path.c"], [("sp_path_samples, sp_path_times and variants", SP + "path.c")])
P("E02", "Envelopes start and end at zero or scale exactly",
  "A zero envelope starts at zero, passes through the given inner points and ends at zero at its full length; a scaled envelope passes through its points with x scaled by length and y by the given factor. Both fill every sample and agree between variants with fixed numbers of points. Curvatures are given for each segment between points.",
  "inputs", "all point counts of the variants with values of a small alphabet", "tests check one envelope", [SP + "path.c"], [("sp_envelope_zero, sp_envelope_scaled and variants", SP + "path.c")])
P("E03", "Spline paths yield the same values for every way of reading them",
  "Reading a path of any segments (line, move, constant, bezier, path) over any ranges, in order, repeated or overlapping, gives at each position the same value as reading it at once; positions on a move segment are written as zeros whatever the output contained before, and path start, end and size are those of its segments. The caller's segment array is not needed after a copy and everything is freed once.",
  "inputs histories", "all segment lists up to the bound over all segment types and all range partitions and read orders", "tests read one path at once",
  [FO + "spline-path.c"], [("spline_path_get, spline_path_set, spline_path_segments_get, segment generators", FO + "spline-path.c")])
# --- helpers
P("Q01", "The queue is first-in first-out for every operation sequence",
  "Elements leave the queue in the order they entered, the size always equals the number of contained elements, the queue is usable again after it was emptied, and elements of different types are returned at their own address.",
  "histories", "all operation sequences up to the depth bound including emptying, re-adding and clearing", "no test covers the queue", [FO + "queue.h"], [("sph_queue_enq, sph_queue_deq, sph_queue_init", FO + "queue.h")])
P("Q02", "Resizable arrays keep elements and sizes for every operation sequence",
  "After any sequence of creating, adding, removing, clearing, resizing, taking and freeing, an array contains exactly the elements added and not removed in their order, its used, unused and maximum sizes and the full state are consistent with them, and a failing allocation is reported and changes nothing.",
  "histories", "all operation sequences up to the depth bound with each allocation failing", "no test covers the array type", [FO + "array3.h"], [("array3_declare_type, array3_add, array3_resize", FO + "array3.h")])
P("U01", "Numeric helpers compute their defined functions on all inputs",
  "Triangle and square waves, panning, powers, factorials, greatest and least of two, limits, absolute differences, subtraction without underflow, division by zero, rounding of positive numbers, rounding to multiples, harmonising, deharmonising (moving away from the nearest multiple), index matching by divisors, byte array conversion, window and sinc functions, the sine period and the conversions between hertz, samples, radians, factors and durations equal their mathematical definition for every argument in range.",
  "inputs", "all arguments of small integer ranges, compared with directly written definitions", "tests check one or two arguments each", [SP + "main.c", SP + "arrays.c"],
  [("sp_triangle, sp_square, sp_pan_to_amp, sp_time_expt, sp_time_factorial, sp_modulo_match, sp_u64_from_array, sp_time_harmonize, sp_time_deharmonize", SP + "main.c, " + SP + "arrays.c"), ("sp_hz_to_samples, sp_rate_duration", SP + "main.h")])
P("U02", "Every status has its own name and description",
  "Each error status of the library has a name and a description that are non-empty and the documented ones, the success status and unknown statuses have the defined fallback, and the group decides which table is used.",
  "inputs", "all status ids of a range in all groups", "no test covers descriptions", [SP + "main.c", FO + "helper.c"], [("sp_status_description, sp_status_name", SP + "main.c"), ("sph_helper_status_name", FO + "helper.c")])
P("U03", "Sums keep precision and approximate comparison obeys size and margin",
  "The sum of any array equals the exact sum of its elements to within the rounding of the result, also if large elements cancel or very many small elements follow a large one, and the mean is that sum divided by the size. Approximate equality holds exactly if the absolute difference is less than the margin, and for arrays if the sizes are equal and it holds for every pair of elements.",
  "inputs", "all short arrays over values whose plain sum rounds wrongly, in both precisions, and long arrays of several patterns", "no test covers sums or compares arrays of different size",
  [FO + "float.c", FO + "float.h", SP + "statistics.c"], [("sph_f64_sum, sph_f32_sum, sp_samples_sum, sp_samples_nearly_equal", FO + "float.h"), ("sp_stat_samples_mean", SP + "statistics.c")])
P("U04", "Status macros leave at the first failure and registers free what they hold",
  "A function written with the status macros runs its steps up to the first one with a status other than zero, of either sign, and returns exactly the id and group of that step, through the code at its exit or directly as the macro says; setting a status without leaving does not leave. Memory registers, unnamed, named and with handlers, release every address added since the last release exactly once through its own handler, whenever and however often they are freed, and leave other registers alone.",
  "histories", "all scripts of macro uses up to the bound, compared with a model of which step is reached and which address is held", "tests use the macros only where nothing fails, with one register of few addresses",
  [FO + "status.h", FO + "memreg.h", SP + "main.h"], [("status_require, status_i_require, status_require_return, status_set_goto", FO + "status.h"), ("sp_status_set_goto", SP + "main.h"), ("memreg_add, memreg_free, memreg2_add_named, memreg2_free_named", FO + "memreg.h")])
P("G01", "String and path helpers return exact new strings",
  "Joining, appending and cloning strings give exactly the concatenation with its length, a trailing slash is added only where missing, and creating a directory structure makes all missing parents and reports success only if the path exists afterwards.",
  "inputs fault_sequences", "all strings over a two letter alphabet up to the length bound, all small directory trees, each allocation failure", "no test covers these", [FO + "string.h", FO + "filesystem.h"],
  [("string_join, string_append, ensure_trailing_slash", FO + "string.h"), ("ensure_directory_structure", FO + "filesystem.h")])
P("K01", "Plot data files contain every value in order",
  "Writing samples or times to a plot data file yields one line per value with its value in order, and the spectrum file contains the magnitudes of the Fourier transform of the input. Plots made one after another use data files of their own.",
  "inputs", "all arrays up to the length bound over a small alphabet", "plots are never checked by tests", [SP + "plot.c"], [("sp_plot_samples_to_file, sp_plot_times_to_file, sp_plot_spectrum_to_file", SP + "plot.c")])
P("K02", "Displayed text states the data",
  "sp_times_display and sp_samples_display write all elements in order in one line, separated by single spaces, times in full and samples with five decimals, and an empty line for an empty array. sph_helper_display_bits writes every bit of every octet, least significant bit first, then a line end; sp_event_list_display writes one line per event with its links, start and end. sp_render_file and sp_render_plot state the duration in whole seconds, sp_render_plot in whole milliseconds if it is below a second. With display_progress set, rendering to a file writes one percentage of the duration done per complete block, otherwise nothing.",
  "inputs configurations", "all arrays up to the length bound over a small alphabet, larger ones in patterns; all durations, rates and block sizes of a grid", "the tests never look at standard output", [SP + "arrays.c", SP + "main.c", FO + "helper.c"],
  [("sp_times_display, sp_samples_display", SP + "arrays.c"), ("sp_render_range_file, sp_render_file, sp_render_plot", SP + "main.c"), ("sph_helper_display_bits", FO + "helper.c"), ("sp_event_list_display", SP + "sequencer.c")], ["standard output"])
P("S08", "List validation refuses exactly the inconsistent event lists",
  "sp_event_list_validate returns without writing anything if every element that is reached from the first has the element before it as its previous element and the list ends. For every other list, including circular ones, it writes a message and exits with code 1. It always terminates.",
  "inputs", "all lists up to the size bound with all combinations of a bounded number of wrong links", "the tests only validate correct lists", [SP + "sequencer.c"],
  [("sp_event_list_validate", SP + "sequencer.c")], ["process exit and standard output"])
# --- not decided
P("D01", "Sound quality of filters meets audio engineering expectations",
  "Windowed-sinc filters attenuate the stop band and keep the pass band as the literature promises for every cutoff and transition width.",
  "inputs", "all cutoff and transition values of the continuous range", "tests look at single values", [SP + "filter.c"], [("sp_windowed_sinc_ir", SP + "filter.c")])
P("D02", "Random output is statistically uniform and independent",
  "Random numbers, noise and random discrete choices have no detectable bias or correlation over long runs.",
  "histories", "arbitrarily long sequences", "tests look at short sequences", [FO + "random.c"], [("sph_random_u64", FO + "random.c")])
