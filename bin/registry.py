"""The registered checks: how each harness is built, its bounds, and what its verdict means."""
SAN = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment"]
ASAN = ["-O1", "-g1", "-fsanitize=address"]
FAST = ["-O1", "-g1"]
RNG = ["-DGAPP_VERIF_RNG"]

SEQ = "model checking: exhaustive enumeration of all operation sequences and single faults up to a depth on the real code, against a reference model"
INP = "model checking: exhaustive enumeration of a bounded input space on the real code, against a naive reference"
CHO = "model checking: depth-first exploration of every random choice of the real code over a boundary alphabet, with invariants and reference oracles"
SCH = "model checking: stateless exploration of all thread interleavings of the real code up to a preemption bound, with happens-before race detection"
NOTE = "Exhaustive within the stated bounds on the code itself (no separate model); nothing is claimed beyond the bounds. Trusts the explorer, the oracle in the harness and the compiler."

CHECKS = {}
def add(id, parts, bounds, technique, note=NOTE, assumptions=()):
    CHECKS[id] = dict(parts=parts, bounds=bounds, technique=technique, note=note, assumptions=list(assumptions))

add("P22", [dict(src=[("checks/p22_small_vector.cpp", "-DPART=%d" % i) for i in range(6)], lib=None, flags=ASAN)],
    "sequences of depth 2 (thorough 3) from every start state with 0..N+2 elements, inline and heap; one fault at every element operation/allocation; element types: trivially copyable, tracked, throwing move, move only; one operation with counts up to 3n from 21 start sizes up to 1000", SEQ)
add("P23", [dict(src="checks/p23_bounded.cpp", lib=None, flags=FAST), dict(src="checks/p23_bounded.cpp", lib=None, flags=ASAN + ["-DSHALLOW"])],
    "ring buffer: every start state (capacity 0-3, every rotation and fill) x all operation sequences of depth 2-3 (thorough 3-4); cache: all sequences of depth 3 (thorough 4) over 4 colliding keys, capacities 0-3; one fault at every element operation/allocation; cache histories of several hundred operations", SEQ)

add("P24", [dict(src="checks/p24_bits_matrix.cpp", lib=None, flags=FAST), dict(src="checks/p24_bits_matrix.cpp", lib=None, flags=SAN, args=["--depth", "2"])],
    "bit sets: all sequences of depth 3 (thorough 4) of every operation from sizes {0,1,2,63,64,65,127,128,129,192,257}; matrices: all sequences of depth 3 (thorough 4) from every shape 0-3 x 0-3; bit sets of 320 and 1030 bits, matrices of up to 100 x 300 with one operation; rows of two matrices compared and assigned to each other; masks of every width of 32 and 64 bit words", SEQ)
add("P28", [dict(src="checks/p28_float.cpp", lib=["utility/math.cpp"], flags=FAST)],
    "all pairs over 61 boundary values of double and float x 36 tolerance settings (absolute 0..1e30, relative 0..1); all vector pairs of length 0-3 (thorough 4) over grids with infinities; all nestings of tolerance scopes to depth 3 (thorough 4), left normally or by an exception", INP)
add("P31", [dict(src="checks/p31_algorithms.cpp", lib=None, flags=SAN)],
    "all sequences of length 0-6 over 4 values and 7-10 over 2 (thorough one longer), all bounds, counts and search values; lower bound for every length 0-140 and every position; iterator laws for all index pairs and element access on every container with 0-6 elements; structured sequences of 31 lengths from 12 to 300", INP)
add("P25", [dict(src="checks/p25_rng.cpp", lib=None, flags=FAST + RNG + ["-fsanitize=undefined", "-fno-sanitize-recover=all"])],
    "raw draws: every sequence of 1-3 values over an alphabet of 26-4000 equidistant and extreme raw numbers; integer ranges of 0-13 values at both ends of 7 types plus full and half ranges; all (range, count) pairs up to 9, ranges around 65536, 2^32 and 2^62 with adversarial repeats; all weight vectors of 1-5 entries over {0..3}; binomials on both sides of every switch of method; cumulative weights of up to 287 entries (thorough 807), index ranges of 1-301 (thorough 1001)", CHO)
add("P26", [dict(src="checks/p26_reflines.cpp", lib=["algorithm/reference_lines.cpp", "utility/math.cpp"], flags=SAN)],
    "all four generators x dimensions 0-10 x counts 0-60 (thorough 200); sparse subsets of every small candidate multiset and of real candidate sets, multiples 1-12; all operation sequences of depth 4 of the quasi-random generator, dimensions 0-8, both precisions, the sequence itself against the documented recurrence; counts to 1000, dimensions to 65 (quasi-random: 33), large subsets", INP)
add("P27", [dict(src="checks/p27_cone_tree.cpp", lib=["utility/cone_tree.cpp", "utility/math.cpp"], flags=ASAN)],
    "all multisets (and orders) of up to 7/4/3 grid points in 1/2/3 dimensions, all two-valued patterns of 8-11 points (thorough 14), 9 structured families of every size up to 140 (thorough 400), x all grid queries; integer coordinates, so products are exact; families of up to 2000 points, up to 700 directions", INP)
add("P15", [dict(src="checks/p15_pareto.cpp", lib=["algorithm/nd_sort.cpp", "core/population.cpp", "utility/math.cpp"], flags=FAST), dict(src=[("checks/parallel_parts.cpp", "-DPART=0")], lib=["algorithm/nd_sort.cpp", "core/population.cpp", "utility/"], sched=True)],
    "all sequences of up to 4 vectors on a 3x3 grid (thorough 6), 5-7 on a 2x2 grid (9), 3 on a 3x3x3 grid (4), with infinities and three tolerance settings; every order of five 7-element sets; 8 structured families of every size 8-70 (200), 1-4 objectives; all pairs of Pareto sets of up to 3+3 vectors; merging of up to 3+2 vectors and the dominance-degree sort of 2-3 under all interleavings of 2-3 threads with up to 2 preemptions (thorough 3); structured families of up to 513 vectors, up to 65 objectives, merging of structured sets of 4-99", INP)
add("P21", [dict(src="checks/p21_metrics.cpp", lib="all", flags=FAST), dict(src=[("checks/parallel_parts.cpp", "-DPART=2")], lib="all", sched=True)],
    "real runs with scripted fitness: all histories of 1-4 generations x 1-4 candidates x 1-3 objectives over 2-4 integer values (bounded products), 5 structured families of 5-24 candidates (thorough 60) in 1-4 objectives, all sequences of 2-3 runs of one object, tracked subsets; hypervolumes against cell counting, and of 1-3 points under all interleavings of 2-3 threads with up to 2 preemptions; runs of up to 520 generations, families of up to 300 candidates", SEQ)
add("P20", [dict(src="checks/p20_stop.cpp", lib="all", flags=FAST)],
    "real runs with scripted fitness: all histories of 1-6 generations (thorough 8) over 3-4 values, 1-2 candidates and objectives (bounded products), all patience values 0-3 and 4 deltas; 20 composites of depth 2-3 with parts that have histories, two and three consecutive runs; stalls of up to 300 generations, wide populations and objectives, up to 66000 evaluations", SEQ)
add("P16", [dict(src="checks/p16_replacement.cpp", lib="all", flags=FAST)],
    "all fitness assignments over 2-4 values (with infinities) to parents and children for population sizes 1-5, all elite counts 0..k+1 and huge; 6 structured families for every size 5-60 (thorough 150); whole scripted runs of 2-4 generations; structured families up to a population of 1025", INP)
add("P03", [dict(src="checks/p03_queue.cpp", lib=None, sched=True)], "2 threads x all programs of 1-2 operations {emplace, take, close, empty, closed} (and with a prefilled queue and spurious wake-ups), 14 producer/consumer/close programs of 2-4 threads; all interleavings with up to 2 preemptions (thorough 4), every choice of who runs when a thread blocks; linearizability against a sequential FIFO with close; without preemptions: bursts of up to 330 elements, streams of 60-120 elements", SCH)
add("P04", [dict(src="checks/p04_locks.cpp", lib=None, sched=True)], "both spin locks: 2 threads x all programs of 1-2 operations {lock, try_lock, lock_shared, try_lock_shared}, all 3-thread programs of one operation; latches with 0-3 counting threads and 1-2 waiters; all interleavings with up to 3/2 preemptions (thorough 5/4), sequentially consistent and with stale reads allowed by the C++ memory model", SCH)
add("P05", [dict(src="checks/p05_rcu.cpp", lib=None, sched=True)], "up to 2 readers x 2 sections and 3 writers x 3 updates, three ways to lock, readers that start before, during and after an update, readers that hold the locks of two objects (or one lock twice) and release them in every order; all interleavings with up to 4/3/2 preemptions or stale reads (thorough 5/4/3), use of freed versions detected on every execution", SCH)
add("P01", [dict(src="checks/p01_loops.cpp", lib=None, sched=True)], "1-6 threads x 0-5 elements x blocks 1-3, three iterator kinds, nested loops up to 3 levels, 2-3 concurrent callers, every change of the thread count between 1 and 3, spurious wake-ups; all interleavings with up to 2 preemptions (1 where 4 or more threads take part, 0 for 5-6 threads; thorough one more); all splits of 0-13 elements into 9 block sizes; without preemptions: loops of up to 290 elements, 70 loops in a row", SCH)
add("P02", [dict(src="checks/p02_exceptions.cpp", lib=None, sched=True)], "1-4 threads x 1-4 elements x every non-empty subset of throwing elements, nested loops with every subset of inner and outer throws, concurrent callers, every failing allocation during submission, followed by loops that must work; all interleavings with up to 2 preemptions (fewer for 4 threads; thorough one more)", SCH)
add("P06", [dict(src="checks/p06_generators.cpp", lib=None, sched=True)], "1-4 threads that start together, reseed twice and exit, threads that start and exit while others draw, every thread of three leaving the order of registration, every distribution before and after a reseed, draws in parallel loops; all interleavings with up to 2 preemptions (1 for 3 and more threads; thorough one more), some also with stale reads; streams against an independent xoroshiro128+", SCH)
add("P07", [dict(src="checks/p07_determinism.cpp", lib="all", sched=True)], "8 configurations (4 encodings, single objective, NSGA-II, NSGA-III and default algorithms, cache, dynamic fitness, kept solutions, metrics) run twice or three times with the same seed on 3 threads after 4 different histories, and once per execution compared across executions, 2-3 generations, up to 2 preemptions (thorough 3; 4 threads: 0, thorough 1); draws in 1-3 parallel loops of 2-5 elements on 2-4 threads, up to 4/3/1 preemptions; single-threaded results compared across processes", SCH)
add("P08", [dict(src="checks/p08_parallel_runs.cpp", lib="all", sched=True)], "11 configurations x 1-4 threads x 2-3 generations: all interleavings with up to 2 preemptions (0 with 4 threads; thorough 3), every access race checked, every call of the fitness function logged and compared to the population, the fitness matrix and the evaluation count; two objects running at the same time", SCH)
add("P12", [dict(src="checks/p12_crossover.cpp", lib="all", flags=FAST + RNG + ["-fsanitize=undefined", "-fno-sanitize-recover=all"])],
    "all parent pairs over small alphabets for lengths 1-4 (structured and all pairs of permutations up to 5, families to 12), every crossover and parameter, with every sequence of the first raw draws over an alphabet of equidistant and extreme values; rates 0 and 1; reachability of every documented child; lengths 8-300 with one or two deviations from a fixed stream of draws", CHO)
add("P11", [dict(src="checks/p11_validity.cpp", lib="all", flags=FAST + RNG + ["-fsanitize=undefined", "-fno-sanitize-recover=all"])],
    "all crossovers, mutations and candidate generators of the four encodings: parent pairs over boundary values, lengths 1-6 and 40, bounds from single values to 8e307, parameters from tiny to huge, and every sequence of up to 3-6 raw draws over an alphabet with the extremes; lengths of 257 and 300; which initial populations occur over all draws (up to 3 candidates, lengths 1-4) and which genes over all single deviations (lengths to 200)", CHO)
add("P13", [dict(src="checks/p13_mutation.cpp", lib="all", flags=FAST + RNG + ["-fsanitize=undefined", "-fno-sanitize-recover=all"])],
    "all mutations with lengths 1-6 and structured longer ones, rates 0, small, 1 and parameters over their whole range; every sequence of the first raw draws over an alphabet; every documented result (set of genes, position pair, range) must be reached; lengths 20-300 with one deviation from a fixed stream, and reachability of every position there; independence of genes", CHO)
add("P17", [dict(src="checks/p17_nsga2.cpp", lib="all", flags=FAST + RNG)],
    "all populations and children over grids with infinities for population sizes 1-4 and 2-3 objectives (one to three steps), structured families of 4-20 candidates (thorough 40), all tournaments of two, whole runs with dictated fitness over several runs of one object; families to 150, objectives scaled by 2^-18 to 2^80, chains of up to 300 fronts, runs with populations to 200", CHO)
add("P18", [dict(src="checks/p18_nsga3.cpp", lib="all", flags=FAST + RNG), dict(src=[("checks/parallel_parts.cpp", "-DPART=1")], lib="all", sched=True)],
    "all populations and children over grids for population sizes 1-4, 2-3 objectives, several sets of reference lines, one to three steps; every sequence of two line choices with all allowed outcomes reached; structured families of 4-20 candidates (thorough 40) in 2-4 objectives; whole runs with dictated fitness; the parallel association of 202-402 candidates under all interleavings of 2-3 threads with up to 1 preemption (thorough 2); families to 129, chains of up to 300 fronts, runs with populations to 200", CHO)
add("P19", [dict(src="checks/p19_selection.cpp", lib="all", flags=FAST + RNG)],
    "all fitness vectors of up to 5 candidates over 5 values, 4 over 6 extreme and 5 infinite values (thorough 5-8), 8 families of up to 48 candidates (64), every selection and 5-9 parameters; probabilities measured over 2048 equidistant draws (all draw combinations for tournaments); runs of 1-5 generations with recorded selections, temperatures over runs of 2-40; families of up to 300 candidates", CHO)
add("P09", [dict(src="checks/p09_generations.cpp", lib="all", flags=FAST + RNG)],
    "whole runs of the four encodings: every overload of solve, populations of 1-4, limits 1-5 (thorough 8), every generation at which the stop condition may stop, 6 kinds of stop conditions, 3 ways to set the algorithm, callback and metrics on and off, three runs of one object; an exception from every one of the first 14 (thorough 40) calls of user code followed by further runs; all sequences of two changes of the settings between runs; limits and populations of up to 300", SEQ)
add("P32", [dict(src="checks/p32_encodings.cpp", lib="all", flags=FAST + RNG), dict(src="checks/p32_encodings.cpp", lib="all", flags=ASAN + RNG, args=["--only", "constructors"])],
    "three user-defined gene types (strings, variants, a bounded type that owns memory), fixed lengths and chromosomes of 0-5 genes: every result of the crossover, mutation and repair over 3-5 chromosomes, 2-3 candidates, 2-3 generations (thorough 4), with and without cache, kept solutions, one and two objectives, own and default algorithm, 0-3 given candidates; several runs of one object with other lengths; all constructors; flip and the five permutation mutations on chromosomes of 0-8 genes (thorough 12) whatever the nominal length, over all draws", CHO)
add("P10", [dict(src="checks/p10_fitness.cpp", lib="all", flags=FAST + RNG)],
    "whole runs of the four encodings in which every result of crossover, mutation, repair and replacement over a menu of 2-3 chromosomes is a choice: populations of 1-3, 2-4 generations, cache of 0-2 generations, static and dynamic functions, preset and evaluated initial candidates, with and without cache and a second run with another function; all built-in operators for all pairs of short parents and every sequence of the first 2-5 draws; whole runs with the built-in operators and cache sizes 0, 1, 3; chromosomes with equal hashes; populations to 300, lengths to 70, caches of up to 256 generations", CHO)
add("P14", [dict(src="checks/p14_solutions.cpp", lib="all", flags=FAST + RNG), dict(src=[("checks/parallel_parts.cpp", "-DPART=0")], lib=["algorithm/nd_sort.cpp", "core/population.cpp", "utility/"], sched=True)],
    "whole runs with dictated chromosomes and fitness: all fitness values (2-3 per objective, 1-3 objectives) of 2-4 chromosomes x all populations of 1-4 candidates over 1-4 generations in four encodings, static and dynamic functions; all histories of distinct candidates, twice with one object; populations up to 20 (thorough 60), three runs with changing settings; 6 algorithms; merging of all Pareto sets of up to 3+2 vectors under all interleavings with up to 2 preemptions (thorough 3); populations to 150, runs of up to 130 generations", SEQ)
add("P30", [dict(src="checks/p30_reuse.cpp", lib="all", flags=FAST + RNG)],
    "four encodings: 12 constructors x 34 settings x every pair of 9 runs (1-3 objectives, lengths 3-5, 1-3 generations, 0-9 given candidates, runs ended by an exception); all pairs of the settings before or between two runs; all triples of 13 settings between three runs; every last run compared to a new object with the same random stream, and every generation to the documented defaults", SEQ)
add("P29", [dict(src="checks/p29_problems.cpp", lib="all", flags=FAST)],
    "all 29 problems: full grids of 19-50000 points per variable in 1-4 variables (thorough 30-200000), every point with up to 2 variables off 4-8 base points in 5-100 variables, 2-10 objectives, every single-variable change in 2-320 variables and 2-40 objectives (thorough 2-700 and 2-80), against the published definitions; all bit strings of up to 14 bits (thorough 16) and structured ones of up to 300; all tours of up to 8 cities (thorough 9), 2-exchange descents on the built-in instances", INP)
add("P33", [dict(src="checks/p33_breeding.cpp", lib="all", flags=FAST + RNG)],
    "whole runs of the four encodings in which every selection, crossover, mutation, repair and replacement is a choice: populations of 1 and 2 with all replacements, of 3 with 5 replacements, 2-3 generations, 7 ways to supply the parts, rates 0 and 1, static and dynamic functions, with and without repair; runs with pseudo-random decisions for populations of 3-301 and 2-30 generations; 3 ways to report the optimal solutions in 1-5 generations, one and two objectives, keeping all or not", CHO)
add("P34", [dict(src="checks/p34_helpers.cpp", lib=["utility/"], flags=SAN)],
    "all integer vectors of length 0-5 and pairs of length 0-4 at four scales, structured ones to 140 (thorough 400); integrals of sin^0 to sin^120 (thorough 400) over 64 intervals; numbers modulo 1-255 and around 2^32, 2^63, 2^64; ranges between all extreme numbers of 4 types; all sequences of 4 (thorough 5) operations on two stored or referenced functions; every nesting of up to 3 scope guards left by an exception at every depth; all arguments of every function object in -3..3; all intervals over 13 extreme values", INP)

add("P35", [dict(src="checks/p35_settings.cpp", lib="all", flags=FAST + RNG)],
    "all sequences of a constructor and up to 3 (thorough 4) setters, copies, moves and assignments for the 18 crossovers, 12 mutations, the selections, replacements and stop conditions with parameters, and for a GA with its 9 ways of construction and 16 settings; 2-4 values per parameter; compared by the getters and by 14 (operators) or 1-3 (runs) executions on dictated random draws", SEQ)
NOT_APPLICABLE = {}
HOOK_COMMITS = ["fdc3e81c574e29ea744d86901931e3cb114c0227"]
