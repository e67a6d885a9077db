"""per property: what is enumerated against what oracle; which planted bugs were missed at first"""
oracle = {
"S01": "event trees of recording probes (lists, groups, nested groups, maps, sp_event_block_generate wrappers) are rendered in every partition; the output must equal the sum of the unambiguous values of each probe at each of its times, on top of the previous content of the block",
"S02": "the probes record calls; each call is checked against a model of the life of an event (not prepared, prepared, consumed up to, freed)",
"S03": "probes fail with distinct statuses at a chosen call; the returned status must be the one of the first failure, every event must be released once, nothing may leak, freeing again must be harmless",
"S04": "an array of (start, id) is the model of the list; after each operation the real list is walked in both directions. lists of up to 300 events in ascending, descending and mixed order in addition",
"S05": "programs of add, append and schedule operations are interpreted by a model that keeps start and end of each event; the rendered output must be the sum of shifted sub-events",
"S06": "the map function records its input buffer and times; compared with the expected output of the sub-event, for isolated and shared buffers; temporary buffers must be freed on each failure",
"S07": "each address has its own handler entry; the model is the list of registered addresses and the reserved count",
"W01": "each sample is computed again by a direct reading of the definition (table index from accumulated integer frequency plus phase, amplitude times modulation). exact size arrays guarded by address sanitizer",
"W02": "phases are accumulated in 64 bit and reduced by modulo; table values and continuation across calls are compared",
"N01": "reference noise from the random state and windowed-sinc kernels convolved directly in the driver, limited to -1 to 1; memory released, other channels untouched",
"C01": "direct convolution sum; separating values (powers) make each product visible",
"C02": "the model keeps every input segment with the response in use and sums all convolutions; counts calls of the response function",
"C03": "kernels written again in extended precision from the definition (sinc, Blackman window, spectral inversion, alignment)",
"C04": "direct mean over the window with reflection or neighbour samples",
"C05": "direct transform sum in extended precision; forward and inverse; failing allocations",
"B01": "arrays with unique values per channel and index",
"A01": "one definition per operation and element; memory around the exact size outputs is guarded",
"A02": "targets (maximum, sum, gain) computed in extended precision; conversions by definition",
"A03": "straight filters and searches over the same array",
"A04": "insertion sort; generator states are constructed so that every sequence of draws is enumerated",
"A05": "brute force enumeration by rank; duplicates and counts; each returned array is freed on its own",
"A06": "the blend of the definition for each position, in double precision; inputs compared with copies, memory around the arrays is guarded",
"R01": "independent implementation of splitmix64, xoshiro256**/+ and bounded integers with rejection, sequences of mixed calls",
"R02": "linear search over the cumulative weights, all draws enumerated by constructed generator states",
"T01": "definitions in extended precision, on copies of the input to detect changes of it",
"U01": "definitions in extended precision or integer arithmetic",
"U02": "the documented table of names and descriptions",
"U03": "exact sums in 128 bit integers, with the error bound of compensated summation; comparison by definition",
"U04": "a model decides which step is the last, which id and group are returned and which addresses each register holds; memory is counted, handlers are counted per address",
"M02": "results are compared with those of the plain functions, memory is counted and handlers are counted per address",
"Q02": "a plain array with two counters is the model; all elements and size macros are compared after every operation",
"F01": "an independent writer produces the expected bytes of the file, which are compared as a whole after closing; the values read back equal the single precision of those written",
"F02": "an independent reader of the format classifies each damaged file as acceptable or not",
"F03": "each stdio call of a history fails or is short in turn; the call must report it, nothing may leak, every file must be closed",
"F04": "the expected samples are the sum of the probes; the file is parsed by an independent reader; failures of each callback",
"K01": "the data file is parsed line by line; spectra are computed by a direct transform; failing allocations and stdio",
"K02": "standard output is replaced by a memory stream; the text is formatted again from the data, or parsed for progress lines",
"S08": "lists are built by the driver, links are set wrong; a walk along next decides if the list is consistent; exit is a stand-in that jumps back",
"Q01": "an array is the model of the queue; two element types with the node at different offsets",
"G01": "string functions of the C library on copies; directories in a scratch tree, existence is checked with stat",
"E01": "linear interpolation and the quadratic curve solved exactly (positions by root finding); variants against the general function",
"E02": "the path of E01 through the points of the definition; sums of the parts of the length decide the positions",
"E03": "a drawing of all segments over the whole range by definition; bezier values near the exact curve and equal in every way of reading",
"M01": "every allocation of every scenario fails, alone or with all later ones; success may only be reported if nothing failed, everything must be released",
"P01": "the output equals the sum of probes (or of sequentially rendered wave and noise events) on every schedule; monitors for races, deadlock, use after free, unjoined threads",
"P02": "probes or allocations fail; the returned status is one of the failing events, nothing runs after the return, each event is freed once",
"P03": "tasks and futures count their runs; results and memory effects visible after touch; after finish with waiting all have run, threads are joined, objects destroyed",
"P04": "thread creation or any allocation fails at each position in repeated initialisations; afterwards no thread, no memory, library usable again",
}
missed = {
"s18": "missed: no property covered the status macros themselves; U04 was added",
"s19": "C05 had no lengths of 65536 and above; basis vectors of such lengths, whose transform has a closed form, were added",
"s20": "was written after S07 had got initial additions for the same gap",
"s21": "R01 had only ranges with which the limit is reduced by one subtraction; ranges slightly above a quarter of the number space were added",
"s22": "A05 had bases up to 4; bases around 2^8 and 2^16 were added",
"s03": "P03 found nothing as futures alone do not race there; P01 and the treatment of atomics against plain accesses were extended",
"s07": "W01 only had phases below the table size; modulation values beyond twice the table were added",
"s16": "caught by C03 but missed by C02, which got histories of the windowed sinc filters in which a single argument changes",
}
# checks that catch a change, if not only that of its property
caught = {"s16": "C03, C02"}
