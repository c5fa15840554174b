P = {
'C01': ("For each of the eight integer widths, one arbitrary initial value and two arbitrary operations (pre/post increment and decrement, +=, -=, incr, assignment, conversion, copy) with arbitrary arguments; the oracle is the wrapping sum in plain arithmetic of the type, and each operation's own result. Since the counter's state is that one value, two steps from an arbitrary value are an induction step.", "A test adds 1 and 10; only arbitrary operands expose sign extension, a narrowing in one of the operators or a wrong returned value at the wrap."),
'C02': ("Two and three threads apply operations with symbolic amounts; every interleaving of the atomic operations; afterwards total = initial + sum. `steps`: a reader's values must each be a sub-sum. `distinct`: increments return distinct totals.", "A lost update needs one particular interleaving."),
'C03': ("Each specialisation of gauge (value, function, reference, pointer, both aggregations) with symbolic values of the source changed several times; oracle: the latest value; kind of snapshot; independence of copies; assignment rebinding the reference instead of writing through it.", "Tests read once."),
'C04': ("Offer up to 2N+1 symbolic values to the ring buffer reservoir, snapshot at any moment; oracle: the last min(n,N) values as a sorted list compared position by position; copies, assignments and later divergence.", "Wrap-around positions times copy moment times values."),
'C05': ("Random draws are symbolic. Histories up to 2N+1; and one inductive step (`step2..4`) from an arbitrary full content: an update changes at most one slot, to the offered value; `slots4` is a reachability query per slot; `cap1024` a concrete-size one that catches index errors at a real capacity.", "Draws that hit the last slot are rare in a test."),
'C06': ("Values, time steps before every operation and the window are symbolic 64 bit numbers; oracle: of the last N offered, those with now-t <= window. Steps of either sign (clock set back) in `out_of_order`.", "The boundary nanosecond and copies taken after expiry are not sampled by tests."),
'C07': ("Counts against the number of updates for each reservoir, read from the histogram and the snapshot, in between and afterwards; two threads with all interleavings; frozen snapshots.", "More updates than capacity, racing."),
'C08': ("Snapshots of n symbolic values, built through each constructor and each reservoir; min, max and ten quantiles compared with interpolation at q(n+1)/100 over an insertion-sorted copy in exact arithmetic with a stated tolerance; monotone in q; independence of order.", "All orders and magnitudes of values incl. 64 bit extremes."),
'C09': ("Mean against the exact rational mean with a stated rounding tolerance; hull; order independence.", "Overflow and rounding need large values."),
'C10': ("All sizes 0..40 and limits; symbolic values; the handler asserts order, range and the interpolated value.", "Sizes around the limit and one-value snapshots crashed (repaired)."),
'C11': ("For each ordered pair of ~20 types both operands are fully symbolic; the six relations against comparison in a wide exact type (__int128 and exact float/integer comparison); antisymmetry, transitivity with three values of mixed types; text bytes symbolic.", "Mixed signs and widths: 400 pairs times all values."),
'C12': ("For each pair of integer types all values: result equals arithmetic in the wider type, commutes, compound agrees with binary, division by zero is zero. Floats by interval reasoning.", "Operand order and narrow unsigned left operands were wrong (repaired)."),
'C13': ("Round trips per type for all values; widening; rounding of floats to nearest incl. halves; text form digits symbolic; parsing of symbolic decimal texts.", "All values."),
'C14': ("Equal values of two types have equal hash for all values; tag sets in every insertion order; equal iff same names and values.", "Equality across types is rare in tests."),
'C15': ("Reference: the recurrence of the statement, computed independently in the harness on the same symbolic times and amounts; compared within rounding at every reading; hull and decay as separate assertions; silence up to 10^8 intervals; clock set back.", "Off-by-one at interval edges; order of readings."),
'C16': ("Two identical objects get the same marks at the same symbolic times, one is observed in between through const methods; all later readings must agree.", "Observation at arbitrary moments."),
'C18': ("Marks of two/three threads in one interval with symbolic amounts, all interleavings (racy points found by the engine).", "Interleavings."),
'C19': ("Meter against marks total / intervals since first and against separate ewma objects of each window; windows in every order and repeated; copies.", "Permutations of template windows, symbolic times."),
'C20': ("Clock advances by symbolic amounts inside the timed callable; histories of runs, throws, scoped timers with resets, clears and moves; count and recorded values compared to an account kept by the harness.", "Histories and exceptions."),
'C21': ("Enumerated structure (paths, tag sets, types; every pair) with symbolic constructor values; identity of objects against equality of (path, tags); types rejected with both names and no change.", "Every pair of types and spellings."),
'C22': ("Registries from symbolic histories are visited; each path/tag set exactly once with its present value; registering existing objects; registries of up to 40 entries.", "Growth, tags and refused registrations."),
'C23': ("Aggregation of up to 4 tagged metrics of each kind with symbolic values against the plain sum/mean; merging orders and weights.", "Weights of merges."),
'C24': ("Merged snapshot against the sorted union of both lists, all values symbolic; counts; quantiles of the union.", "All overlaps of two sorted lists."),
'C25': ("Each constructor with symbolic flags and factors; copies, moves, assignment over other options; histories of settings at registry and metric level, seen through a publisher.", "Histories and combination of flags."),
'C26': ("Histories of requests; identity of objects; no creation on lookup.", "Histories."),
'C27': ("Path bytes and tag names symbolic; the published text is matched byte by byte against the grammar and against the expected mapping of each byte.", "256^n names."),
'C28': ("Tag value bytes symbolic; the published text is parsed back by the harness and must give the bytes; lines counted.", "Escapes in every position."),
'C29': ("Labels of symbolic/enumerated windows parsed back by the harness to a duration and compared.", "Every unit boundary."),
'C30': ("Symbolic values and every combination of option flags; the expected text (set of lines) is built by the harness and compared.", "Combinations of flags, tags, kinds."),
'C31': ("Lists of symbolic strings joined in every grouping; equality iff lists equal; join with symbolic delimiter.", "Empty strings in any position."),
'C32': ("Symbolic values; all interleavings of two/three threads of pushes and pops, with memory reuse (ABA); LIFO for one thread; multiset equality; linearizable emptiness.", "ABA needs one schedule."),
'C33': ("Threads request, update, visit, register, aggregate and publish at once; all interleavings; objects identical and updates summed.", "Interleavings."),
'C34': ("Lists in orders with repetitions (template parameters) on symbolic values; visited quantiles strictly increasing and with the interpolated value.", "Ordering of template lists."),
'C35': ("Counts symbolic over the whole non-overflowing range; exact arithmetic on microseconds.", "All counts."),
'C36': ("Threads update reservoirs in states empty/part/full, with a reader or copier; content checked as multiset; racy accesses become scheduling points.", "Interleavings and index hand-over."),
"C37": ("Histories of taking, copying, moving, exchanging, compare-and-exchanging and dropping handles with an account of who holds what (constructions, destructions, identity); two threads taking and returning, all interleavings.", "The tests of the pool are not built; the hand-out-twice history needs one schedule (known finding)."),
"C38": ("Histories against a set of keys, with the random levels as symbolic draws; iteration order by a symbolic comparison of arbitrary keys; two threads inserting, erasing and iterating: results and final content must be those of some order. The engine schedules fairly: a thread that yields, or that spins for 3000 instructions, lets another go at no cost, so a wait for a preempted eraser is not taken for a hang.", "Deletion marks and level links matter in single schedules; the tests are not built."),
"C39": ("The number of live heap blocks (counted by the engine, and by the sanitizer's hooks in the native replay) before a use of the library and after it must agree, for every choice of operations with symbolic values; a first round warms up function statics.", "Leaks show up in no result."),
"C40": ("A page is written by one thread while others update, request or write; the page is read back as Prometheus would and each symbolic value on it has to be one that the metric had during the writing; every metric that was there before has to be on it exactly once.", "Schedules inside the visit of the registry."),
}
