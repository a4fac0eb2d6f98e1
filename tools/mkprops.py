#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        }})

FN = "lib/hnco/functions/"
AL = "lib/hnco/algorithms/"

prop("C01", "An evaluation budget is spent exactly and never exceeded",
 "A function given a budget of B evaluations performs exactly the first B evaluations asked of it; every later request is refused with the end-of-budget signal before the underlying function is touched. This holds for plain, incremental and registered-after-parallel evaluations in any mixture and under any stacking of the other controllers, and the number of evaluations a counter reports is the number that really took place.",
 ["histories", "inputs"], "every sequence of plain / incremental / safe+register evaluations, every budget, every controller stack",
 "No test exercises the budget controller at all; the guarantee is over all histories of requests.",
 [FN+"controllers/controller.cc", FN+"controllers/controller.hh"],
 [("OnBudgetFunction / CallCounter", FN+"controllers/controller.cc")],
 [("calls", "evaluations performed so far", "CallCounter")],
 ["return/throw of evaluate, evaluate_incrementally, update", "get_num_calls"])

prop("C02", "The tracked best is the first maximum of the evaluation history",
 "After any history of evaluations the progress tracker reports how many were made, the largest value obtained, the rank of the first evaluation that obtained it, and (when asked to record it) a bit vector that was really given that value. Plain, incremental and registered evaluations count alike, and an evaluation that is refused or fails changes nothing.",
 ["histories", "inputs"], "every sequence of evaluations through every evaluation entry point",
 "No test reads the progress tracker; ties, negative values and incremental steps are only reached by chance.",
 [FN+"controllers/controller.cc"],
 [("ProgressTracker", FN+"controllers/controller.cc")],
 [("last improvement", "count, value and bit vector of the best evaluation", "ProgressTracker")],
 ["get_last_improvement", "get_num_calls"])

prop("C03", "A run is stopped exactly by the first evaluation reaching the target",
 "A stop-on-target (or stop-on-maximum) function signals that the target is reached exactly when an evaluation yields a value greater than or equal to the target, never for a smaller value, and otherwise returns the value unchanged. The trigger it then reports is the bit vector that was evaluated, with its value, whichever way it was evaluated.",
 ["histories", "inputs"], "every history of evaluations and every target value, including the value equal to the target",
 "No test stops on a target; the trigger is never read by the suite.",
 [FN+"controllers/controller.cc", FN+"controllers/controller.hh"],
 [("StopOnTarget / StopOnMaximum", FN+"controllers/controller.cc")],
 [], ["TargetReached", "get_trigger"])

prop("C04", "A cache never changes a value and evaluates each bit vector once",
 "A cached function returns, for every request of any history, the value the underlying function gave for that very bit vector, and plain evaluations ask the underlying function at most once per distinct bit vector. The lookup ratio it reports is the fraction of requests answered from the cache, and evaluations registered after parallel evaluation still reach the controllers underneath.",
 ["histories", "inputs"], "every history of requests, every bit vector size",
 "No test uses the cache; collisions, sizes and interaction with other controllers are never reached.",
 [FN+"controllers/controller.cc", FN+"controllers/controller.hh"],
 [("Cache", FN+"controllers/controller.cc")],
 [("cache", "map from bit vector to value", "Cache")], ["evaluate", "get_lookup_ratio"])

prop("C05", "Function wrappers denote exactly the function they claim to be",
 "Negating a function, composing it with a map, transforming it by an expression or perturbing its argument yields at every point the value defined by that operation on the wrapped function, and every controller is transparent. Size, known maximum and availability of incremental evaluation announced by a wrapper are true of the wrapped result: an announced maximum is attained and never exceeded, and announced incremental evaluation is usable.",
 ["inputs", "configurations"], "every wrapped function, every map, every nesting of wrappers, every bit vector",
 "Tests touch the negation of one function; composition, nesting and the announced metadata are not checked.",
 [FN+"modifiers/modifier.cc", FN+"modifiers/modifier.hh", FN+"modifiers/prior-noise.cc", FN+"modifiers/parsed-modifier.cc", FN+"controllers/controller.hh", FN+"decorator.hh", FN+"multiobjective-function-adapter.hh"],
 [("OppositeFunction, FunctionMapComposition, PriorNoise, ParsedModifier, AdditiveGaussianNoise", FN+"modifiers/")],
 [], ["evaluate", "get_bv_size", "has_known_maximum", "get_maximum", "provides_incremental_evaluation"])

prop("C06", "Incremental evaluation agrees with full evaluation",
 "For every function offering incremental evaluation, the value obtained from a point, its value and a set of bits to flip is the value a full evaluation of the flipped point gives. The call leaves the function's later answers unaffected, so arbitrarily long chains of incremental steps never drift from full evaluation.",
 ["inputs", "histories"], "every instance, every point, every set of flipped bits, every chain of steps",
 "Tests walk random single chains on one random instance; boundary shapes (one row, one column, periodic two-site rings) and flip sets are not enumerated.",
 [FN+"collection/theory.cc", FN+"collection/linear-function.cc", FN+"collection/walsh/walsh-expansion-1.cc", FN+"collection/ising/nearest-neighbor-ising-model-1.cc", FN+"collection/ising/nearest-neighbor-ising-model-2.cc", FN+"modifiers/modifier.cc"],
 [("evaluate_incrementally", FN+"collection/")], [], ["evaluate_incrementally", "evaluate"])

prop("C07", "An announced maximum is the true maximum",
 "Whenever a function announces that its maximum is known, some bit vector attains exactly the announced value and none exceeds it. A function that cannot vouch for its maximum says so and refuses to give one.",
 ["inputs", "configurations"], "every function and every legal parameter combination",
 "Tests check one parameter setting per function.",
 [FN+"collection/", FN+"modifiers/modifier.hh"],
 [("has_known_maximum / get_maximum", FN+"collection/")], [], ["has_known_maximum", "get_maximum", "evaluate"])

prop("C08", "Benchmark functions compute their published definitions",
 "Every benchmark function returns, for every bit vector (or integer vector, or permutation) and every legal instance, the value given by its documented definition: one-max, leading ones, needle, hierarchical if-and-only-if, ridge, plateau, jump, deceptive jump, four/six peaks, traps, long path, linear functions, NK landscapes, Ising models, Walsh expansions, MaxSat and not-all-equal sat, partition, equal products, factorization, quadratic binary, low autocorrelation sequences, summation cancellation, sudoku and TSP tours. Parameters for which the definition makes no sense (sizes that are not a multiple or a power as required, gaps, thresholds or prefixes out of range) are rejected when the function is constructed.",
 ["inputs", "configurations"], "every bit vector and every instance",
 "Tests only compare the maximum found by complete search for one size; values elsewhere on the hypercube are never checked.",
 [FN+"collection/"],
 [("evaluate", FN+"collection/")], [], ["evaluate"])

prop("C09", "Saving and reloading preserves functions and maps",
 "A function instance or map written to a file and read back behaves identically at every point, including incremental evaluation, sizes and boundary settings, for generated as well as hand-made instances. Reading an instance file in a documented text format yields the function the file describes, and a malformed file is refused rather than half-read.",
 ["inputs", "histories"], "every instance, every file content",
 "Tests round-trip one random instance per class and never read a malformed or hand-written file.",
 ["lib/hnco/serialization.hh", FN+"collection/", "lib/hnco/maps/"],
 [("load/save", FN+"collection/"), ("serialize", "lib/hnco/maps/map.hh")], [], ["load", "save", "evaluate", "map"])

prop("C10", "The Walsh transform is exact and both algorithms agree",
 "For every function, the Walsh transform computed by the direct and by the fast algorithm is the same set of non-zero terms, each the sum of the function's values weighted by the parity character. Evaluating the expansion built from the terms and dividing by the number of points gives the function back everywhere.",
 ["inputs"], "every function on the hypercube",
 "One test compares the two algorithms on one random function.",
 [FN+"function.cc", FN+"collection/walsh/walsh-expansion.cc"],
 [("compute_walsh_transform, compute_fast_walsh_transform", FN+"function.cc")], [], ["terms", "evaluate"])

prop("C11", "Iterators visit every point of their set exactly once",
 "Enumerating the hypercube yields all bit vectors of the given size, each once; enumerating a single-flip neighborhood or a Hamming sphere of a given radius yields exactly the points at that distance from the origin, each once. An enumeration can be abandoned midway and restarted with init, around another origin if one was set before, and then again yields exactly its set around the current origin, each point once.",
 ["inputs", "histories"], "every size, radius, origin, and every history of re-initialisations",
 "Tests count points for one size, and never re-initialise midway.",
 ["lib/hnco/iterator.cc", "lib/hnco/iterator.hh", "lib/hnco/neighborhoods/neighborhood-iterator.cc", "lib/hnco/neighborhoods/neighborhood-iterator.hh"],
 [("HypercubeIterator, SingleBitFlipIterator, HammingSphereIterator", "lib/hnco/")], [], ["has_next", "next"])

prop("C12", "Neighborhoods propose only legal moves and keep or undo them exactly",
 "A proposed candidate differs from the current origin in exactly the announced flipped bits, and their number is what the neighborhood promises (one bit, exactly the radius, between one and the radius, or any non-zero number for standard mutation unless zero is allowed). Keeping a proposal makes it the origin, forgetting it restores the candidate to the origin, and mapping or mutating a given bit vector produces a legal neighbor of that bit vector. The flipped bits are announced as sorted distinct positions, every legal move can be proposed, and bits are chosen uniformly at the given rate.",
 ["histories", "inputs"], "every sequence of set-origin / propose / keep / forget / mutate / map, every size, radius and rate",
 "Tests check the distance of a few random samples for one neighborhood.",
 ["lib/hnco/neighborhoods/neighborhood.cc", "lib/hnco/neighborhoods/neighborhood.hh"],
 [("Neighborhood and subclasses", "lib/hnco/neighborhoods/neighborhood.hh")],
 [("origin, candidate, flipped bits", "current point, proposal and their difference", "Neighborhood")],
 ["get_origin", "get_candidate", "get_flipped_bits"])

prop("C13", "Bit-matrix linear algebra is exact over GF(2)",
 "Products, sums, transposes, row and column operations, rank, inversion and linear solving return the results defined by arithmetic modulo two for every matrix and vector. A matrix is reported invertible exactly when it is, the inverse returned is its inverse, and a system is reported uniquely solvable exactly when it is, with its solution.",
 ["inputs"], "every matrix and vector, singular ones included",
 "Tests sample a few random, mostly invertible matrices.",
 ["lib/hnco/bit-matrix.cc", "lib/hnco/bit-matrix.hh", "lib/hnco/sparse-bit-vector.cc"],
 [("bm_*", "lib/hnco/bit-matrix.cc")], [], ["bm_*"])

prop("C14", "Transvection sequences obey their algebra and sampling constraints",
 "Applying a sequence of transvections to a vector or a matrix is the product of its elementary row additions in order, the commutation and disjointness predicates are true exactly when the transvections commute or are disjoint, and each transvection is an involution. Every sampled sequence has the requested length and satisfies the constraint of its sampling mode (commuting, unique source, unique destination, disjoint, non-commuting), also when a container is reused, and the affine map built on it is a bijection.",
 ["inputs", "histories"], "every sequence, dimension, length, sampling mode and reuse",
 "Tests sample a few sequences at one size into a fresh container.",
 ["lib/hnco/maps/transvection.cc", "lib/hnco/maps/transvection.hh", "lib/hnco/maps/map.cc"],
 [("ts_*", "lib/hnco/maps/transvection.cc"), ("TsAffineMap", "lib/hnco/maps/map.cc")], [], ["ts_multiply", "ts_random*", "ts_is_valid"])

prop("C15", "Maps compute what they declare and surjectivity claims are true",
 "Translations, permutations, linear and affine maps, transvection-based affine maps, compositions, injections and projections map every bit vector as defined, with the input and output sizes they announce. A map that claims to be surjective reaches every output vector; linear and affine maps, injections and projections claim it exactly when it is true, and compositions exactly when both parts do. Random maps satisfy the requested surjectivity, and a projection undoes the matching injection.",
 ["inputs", "configurations"], "every map instance, every input vector",
 "Tests check a few random vectors through one map of each kind.",
 ["lib/hnco/maps/map.cc", "lib/hnco/maps/map.hh"],
 [("Map subclasses", "lib/hnco/maps/map.hh")], [], ["map", "get_input_size", "get_output_size", "is_surjective"])

prop("C16", "Representations decode every bit string to an in-range value, and onto",
 "Decoding any bit string of the representation's size, at any offset, yields a value in the declared domain: integers within bounds, floats between the bounds (the upper one excluded, up to rounding), categories and listed values, complex pairs, and permutations sorted by their keys with ties broken at random. Representations of full precision reach every value of a finite domain with at least two values, coarser ones space values by a power of two from the lower bound without passing the upper one, the precision asked for is granted, decoding is monotone in the binary value for ordered domains, and bits outside the slice are irrelevant.",
 ["inputs", "configurations"], "every bounds/precision/size combination and every bit string",
 "Tests cover two representations on one interval.",
 ["lib/hnco/representations/"],
 [("unpack", "lib/hnco/representations/")], [], ["unpack", "size"])

prop("C17", "Adapters feed each variable from its own slice of the bit vector",
 "A function of several typed variables adapted to bit vectors receives, for every bit vector, each variable decoded from its own consecutive slice in declaration order, and the adapted value is the function of those variables. The size is the sum of the slices, and the description shown to the user lists the values the bit vector decodes to (permutations up to ties between keys). A textual representation declaration produces the declared representation, a syntactically faulty one is refused, and a variable that is not declared with its own type gets the default representation.",
 ["inputs", "configurations"], "every list of representations, every bit vector, every declaration string",
 "No test builds an adapter or parses a declaration.",
 [FN+"multivariate-function-adapter.hh", FN+"permutation-function-adapter.hh", FN+"universal-function-adapter.hh", "lib/hnco/app/parser.cc", "lib/hnco/app/make-multivariate-function-adapter.hh", "lib/hnco/multiobjective/functions/"],
 [("unpack / evaluate", FN+"multivariate-function-adapter.hh"), ("parsers", "lib/hnco/app/parser.cc")], [], ["evaluate", "describe", "get_bv_size"])

prop("C18", "Every algorithm reports a solution it really evaluated, with its value",
 "Whatever the algorithm, function, parameters and stopping cause (iteration limit, natural end, exhausted budget, target reached, restarts), once at least one evaluation has completed the reported solution is a bit vector evaluated during the run and the reported value is the value that evaluation gave. When a run ends by itself, algorithms that keep the best (all but the random walk and simulated annealing's current point; the (1+(lambda,lambda)) genetic algorithm among its crossover offspring) report the best value they evaluated; when it is interrupted, no evaluation made before the interrupted iteration is better than the reported one.",
 ["histories", "configurations", "fault_sequences"], "every algorithm, function, seed and every evaluation at which the run may be interrupted",
 "Tests run a handful of algorithms to completion on easy functions and never interrupt one.",
 [AL, AL+"algorithm.cc", AL+"decorators/restart.cc", AL+"iterative-algorithm.cc"],
 [("solution bookkeeping", AL+"algorithm.cc"), ("finalize", AL)], [("solution", "best pair (bit vector, value)", "Algorithm")],
 ["get_solution", "evaluate calls of the user's function"])

prop("C19", "Local search moves legally, accepts by its rule, and ends locally optimal",
 "In hill climbing and random local search every candidate evaluated is a neighbor of the current point, the current point changes exactly when the acceptance rule (greater, or greater-or-equal) accepts the candidate, and its value never decreases. Hill climbing stops only at points with no acceptable neighbor, steepest ascent moves to a best neighbor, random local search with patience stops exactly after that many consecutive rejections, and complete search examines every point once. The random walk moves to every neighbor it evaluates; simulated annealing always accepts a candidate that is not worse and a worse one with the Boltzmann probability at the current temperature, and cools after the given number of accepted transitions.",
 ["histories", "inputs"], "every function, starting point, neighborhood, seed",
 "Tests check the final point of two climbers on random functions.",
 [AL+"local-search/", AL+"complete-search.cc"],
 [("iterate", AL+"local-search/")], [("current point", "point whose neighbors are examined", AL+"local-search/")], ["evaluate calls", "get_solution"])

prop("C20", "Populations are ranked and selected as specified",
 "After sorting, the k-th best individual has the k-th largest value and the pairing of bit vectors and values is preserved; plus selection keeps the best of parents and offspring together and comma selection the best offspring, never a worse one in place of a better one. Tournament selection without replacement returns the best of each disjoint group of the announced size, crossover takes each bit from one of the parents, and every selected individual belongs to the population.",
 ["inputs", "histories"], "every population content (ties included), size, and every sequence of selections",
 "No test examines selection; one test evaluates a population.",
 [AL+"population.cc", AL+"evolutionary-algorithms/", "lib/hnco/multiobjective/algorithms/random-selection.hh"],
 [("sort, plus/comma selection", AL+"population.cc"), ("TournamentSelection", "lib/hnco/multiobjective/algorithms/random-selection.hh")], [], ["get_best_bv", "get_best_value", "select", "recombine"])

prop("C21", "Distribution-learning algorithms update their model by their published rule",
 "After each generation the probability vector equals the result of the algorithm's documented update applied to the sampled generation ranked by value: moved by the learning rate toward the mean of the selected best, away from the worst where the algorithm says so, by one step per disagreeing bit for the compact variant. Probabilities stay within the prescribed margins, and sampling uses the current model.",
 ["histories", "inputs"], "every population, ranking, learning rate and number of generations",
 "No test runs any of these algorithms.",
 [AL+"probability-vector/"],
 [("iterate / update", AL+"probability-vector/")], [("pv", "probability of a one at each position", "PvAlgorithm")], ["evaluations", "logged model"])

prop("C22", "Moment models and their samplers keep exact statistics",
 "First and second moments accumulated from any set of bit vectors equal the averages of the signed bits and of their pairwise products, stay within their bounds, are symmetric once averaged, and arithmetic on them is exact. Herding keeps the difference between targeted and sampled moments it is defined to keep and each sample follows it, Gibbs sampling sets each bit by the logistic law given the other bits, and herding and Boltzmann-machine algorithms learn, at the given rate and within their bounds, from the moments of the individuals selected among the evaluated ones.",
 ["inputs", "histories"], "every multiset of bit vectors, every sequence of samples",
 "One test adds two moments; sampling is tested for a single call.",
 [AL+"walsh-moment/"],
 [("TriangularWalshMoment2 / FullWalshMoment2", AL+"walsh-moment/walsh-moment.cc")], [], ["first_moment", "second_moment", "sample"])

prop("C23", "Parallel evaluation of a population equals sequential evaluation",
 "Evaluating a population in parallel gives every individual the value sequential evaluation would, whatever the number of threads and the schedule, and counters, budget, best-so-far and target behave as if the individuals had been evaluated one after the other in order. An individual is never evaluated twice, skipped, or paired with another's value.",
 ["schedules", "inputs"], "every population, thread count and schedule",
 "One test compares values for one thread count without any controller.",
 [AL+"population.cc", "lib/hnco/multiobjective/algorithms/population.cc", FN+"controllers/controller.cc"],
 [("evaluate_in_parallel", AL+"population.cc")], [], ["values", "controller state"])

prop("C24", "Pareto ranking is the exact non-domination sort",
 "One value dominates another exactly when it is no worse in every objective and better in at least one. The front number computed for each individual is the length of the longest chain of dominators above it: front zero is exactly the non-dominated individuals, duplicates share a front, and reusing the computation on new values gives the same answer as a fresh one.",
 ["inputs", "histories"], "every population of objective vectors, duplicates and ties included",
 "One test checks random populations for two properties of the first front.",
 ["lib/hnco/multiobjective/algorithms/pareto-front-computation.hh", "lib/hnco/multiobjective/functions/value.hh"],
 [("Nsga2ParetoFrontComputation", "lib/hnco/multiobjective/algorithms/pareto-front-computation.hh")], [], ["compute", "dominates"])

prop("C25", "The multiobjective search returns mutually non-dominated evaluated points",
 "For every function, population size, number of generations and seed, the solutions returned were all evaluated during the run, carry the objective values obtained, do not dominate each other, and none is dominated by any point of the final generation. Selection is elitist: a generation keeps whole fronts in order and breaks the last one by crowding distance (finite objectives, not normalised). Parents come from tournament rounds of the given size without replacement, crossover is applied with the given probability, and running again starts afresh.",
 ["histories", "configurations"], "every function, population size, generation count, seed",
 "No test runs the multiobjective algorithm.",
 ["lib/hnco/multiobjective/algorithms/nsga2.cc", "lib/hnco/multiobjective/algorithms/nsga2.hh"],
 [("init, iterate, finalize", "lib/hnco/multiobjective/algorithms/nsga2.cc")], [], ["get_solutions", "evaluate calls"])

prop("C26", "Iterative algorithms do the announced number of iterations and evaluations",
 "An algorithm limited to N iterations performs its initialisation and exactly N iterations, each costing the documented number of evaluations, unless it finds by its own rule that it is finished; without a limit it goes on until it is stopped. The same object can be run again and behaves as a fresh one, making the same evaluations given the same seed.",
 ["configurations", "histories"], "every algorithm, iteration limit, population size",
 "Tests never count iterations or evaluations and never rerun an algorithm.",
 [AL+"iterative-algorithm.cc", AL],
 [("loop", AL+"iterative-algorithm.cc")], [], ["evaluate calls"])

prop("C27", "The command-line program reports the true outcome of the run",
 "The results printed or saved by the program (best value, evaluations to it, total evaluations, success) agree with the evaluations the run made, and every option reaches the function, map, modifier, controller, algorithm or generator it documents. A solution printed or saved by a run that ended by itself or on its target has the value printed, one interrupted by the budget is an evaluated point, and asking for the function's size, maximum, properties, table or Walsh transform prints the true ones. The exit status tells whether a requested maximum or target was reached, and an unknown or missing function, algorithm, file or option is refused with an error and no result.",
 ["configurations", "inputs"], "every combination of function, algorithm, controller and output options",
 "No test runs the program.",
 ["lib/hnco/app/application.cc", "lib/hnco/app/decorated-function-factory.cc", "app/hnco.cc", "app/ffgen.cc", "app/mapgen.cc"],
 [("CommandLineApplication", "lib/hnco/app/application.cc")], [], ["stdout", "exit status", "result files"])

prop("C28", "A seed determines a run completely",
 "Running the same configuration twice with the same seed produces the same sequence of evaluations, the same models, maps and instances and the same result, in the library and on the command line. Resetting the generator replays the same random sequence, and different thread counts change neither the function instance optimised nor the map applied to it.",
 ["configurations", "schedules"], "every algorithm and configuration, every seed",
 "Tests seed from the clock and never compare two runs.",
 ["lib/hnco/random.cc", "lib/hnco/random.hh", "lib/hnco/app/application.cc", AL],
 [("Generator", "lib/hnco/random.hh"), ("make_functions", "lib/hnco/app/application.cc")], [], ["evaluation sequence", "results"])

prop("C29", "Bit-vector, sparse-vector and permutation primitives are exact",
 "Weights, distances, dot products, additions, flips, conversions to and from integers, strings, packed vectors and slices return the mathematically defined result for every operand. Sampling a bit vector of a given weight yields exactly that weight and can yield every vector of that weight, samples of flip positions are distinct and in range, and shuffles and random permutations are permutations.",
 ["inputs"], "every operand, sizes up to and beyond machine-word length",
 "Tests sample conversions and weights at a few sizes.",
 ["lib/hnco/bit-vector.cc", "lib/hnco/bit-vector.hh", "lib/hnco/sparse-bit-vector.cc", "lib/hnco/permutation.cc", "lib/hnco/util.hh"],
 [("bv_*, sbm_*, perm_*", "lib/hnco/")], [], ["results"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
