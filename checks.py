"""Registry of the checks: drivers, trace modules, design models."""

CHECKS = {}


def add(pid, **kw):
    CHECKS[pid] = kw


for _m in ("C01", "C02", "C03", "C04"):
    add(_m, note="Every history of up to 3 (thorough: 4) requests on every stack of height 2 with the controller, exhaustively on n=1, plus random histories on random stacks up to 70 bits with values in any power-of-two unit, infinities and (cache only) undefined values, and histories of up to 140000 requests and 40000 cached points told by their totals; the model is checked exhaustively for three requests on stacks of height 2 (thorough: four requests, and three on height 3).",
        parts=[dict(driver="controllers", mode=_m, module="ControllersTrace")],
        design=[dict(module="MC_Controllers", cfg="MC_Controllers.cfg", cfg_thorough="MC_Controllers_deep.cfg", workers=4),
                dict(module="MC_Controllers", cfg="MC_Controllers_tall.cfg", tier="thorough", workers=4)])

add("C29",
    parts=[dict(driver="primitives", mode="C29", module="PrimitivesTrace")],
    design=[dict(module="MC_Bits", cfg="MC_Bits.cfg", cfg_thorough="MC_Bits_deep.cfg")],
    note="All vectors of up to 5 bits (pairs up to 4), word and byte boundary sizes up to 300 bits, all short integer sequences for validity predicates; supports of the samplers are complete for n <= 5 (failure probability below 1e-50).")

_LIN = [dict(module="MC_Gf2", cfg="MC_Gf2.cfg", cfg_thorough="MC_Gf2_deep.cfg")]
add("C13", parts=[dict(driver="linear", mode="C13", module="LinearTrace")], design=_LIN,
    note="Every matrix up to 3x3 (rectangular 2x3/3x2; thorough up to 12 cells), random and rank-deficient matrices of all shapes up to 9x9 and fourteen larger shapes up to 130x3 and 31x31, invertible ones up to 65x65, permutation, antidiagonal, triangular and other sparse matrices up to 44x60; results decided by the GF(2) specification, whose rank is itself checked against brute-force row spaces.")
add("C14", parts=[dict(driver="linear", mode="C14", module="LinearTrace")], design=_LIN,
    note="All pairs of transvections up to dimension 4, all six sampling modes for every length up to the maximum in dimensions 2..8 with a reused container, commuting sequences up to dimension 26 (thorough 40) at every length where the split of the variables changes, random dimensions up to 140; supports of the samplers complete for n <= 4.")
add("C15", parts=[dict(driver="linear", mode="C15", module="LinearTrace")], design=_LIN,
    note="Every input of maps up to 4 bits, sampled inputs up to 140 bits, compositions of every two kinds of maps; surjectivity decided by exact rank and, for small maps, by the full image.")

_MOV = [dict(module="MC_Moves", cfg="MC_Moves.cfg", cfg_thorough="MC_Moves_deep.cfg")]
add("C11", parts=[dict(driver="moves", mode="C11", module="MovesTrace")], design=_MOV,
    note="All four iterators, every size up to 5 and radius, fixed, random and (sizes up to 3) exhaustive histories of next/has_next/init/set_origin; whole enumerations up to 130 bits, long ones (2^17 points) by their length, number of different points and a sample.")
add("C12", parts=[dict(driver="moves", mode="C12", module="MovesTrace")], design=_MOV,
    note="Random histories of set/propose/keep/forget/mutate/map/reconfigure for every neighborhood on sizes up to 130; supports complete and frequencies within 15% (over 6 standard deviations) in small dimensions, positions and numbers of flips up to 170 bits.")

_BM = [dict(module="MC_Benchmarks", cfg="MC_Benchmarks.cfg", cfg_thorough="MC_Benchmarks_deep.cfg")]
for _m, _note in (
    ("C05", "Every nesting of two wrappers (negation, expression, map, each controller, cache) over nine base functions, random nestings up to five, all points, nestings over functions of up to 70 bits, announced maximum/size/incremental evaluation, both noises."),
    ("C06", "Every point and flip set up to four (thorough five) bits, all lattice shapes up to four sites, random chains up to 132 bits and large lattices with interleaved requests, also through the negation."),
    ("C07", "Every function and legal parameter up to eight (thorough nine) bits, complete enumeration of values; announced maxima up to 130 bits against the definition's own maximum, with local maximality up to 40 bits; the formulas themselves are checked on the definitions."),
    ("C08", "Complete tables up to seven (thorough nine) bits for every function and parameter, structured and random points up to 207 bits (long paths up to 26 blocks), generated and random instances, legality of parameters."),
    ("C09", "Random and integer instances of every class saved and reloaded over fresh and used objects, truncated and corrupted archives, generated CNF/QUBO/Sudoku/TSP/factorization files, small and large, with each documented fault."),
    ("C10", "All tables over four values for one and two bits, random tables up to eight bits, sums of a few characters up to fifteen (thorough seventeen) bits, values in any power-of-two unit, benchmark functions; both transforms compared with the specification's coefficients.")):
    add(_m, parts=[dict(driver="functions", mode=_m, module="BenchmarksTrace")], design=_BM, note=_note)

_REP = [dict(module="MC_Representations", cfg="MC_Representations.cfg", cfg_thorough="MC_Representations_deep.cfg")]
add("C16", parts=[dict(driver="reps", mode="C16", module="RepTrace")], design=_REP,
    note="Every interval up to 20 (thorough 70) values and the boundary widths up to 31 and 63 bits, every size and precision, complete tables up to seven bits; floats exactly on integer bounds, by rank on others; complete tables of categories and value sets; permutations for all keys in small dimensions.")
add("C17", parts=[dict(driver="reps", mode="C17", module="RepTrace")], design=_REP,
    note="Random lists of up to six representations of every kind behind every adapter (also the multiobjective ones), random expressions behind every parsed adapter with random, missing, mismatching and repeated declarations, every syntactic fault of a declaration.")

_SEA = [dict(module="MC_Search", cfg="MC_Search_%s.cfg" % k, cfg_thorough="MC_Search_%s_deep.cfg" % k) for k in ("gen", "eager", "restart")]
for _m, _note in (
    ("C18", "Every algorithm in about eighty configurations on eight kinds of tables (ties, negative, very close and very large values, constants), interrupted by budget and by target at every evaluation of the run, restarted, with one and several threads; the settling rule is model checked."),
    ("C26", "Every algorithm with several limits: exact number of evaluations, no limit means endless, the same instance run again after a complete and after an interrupted run repeats the same evaluations, restarts make complete runs."),
    ("C28", "Every algorithm run twice with the same seed and different numbers of threads, draws of the generator after seeding and resetting, random instances and maps.")):
    add(_m, profile="full", parts=[dict(driver="algos", mode=_m, module="SearchTrace")], design=_SEA, note=_note)

add("C19", parts=[dict(driver="localsearch", mode="C19", module="LocalSearchTrace")],
    design=[dict(module="MC_LocalSearch", cfg="MC_LocalSearch.cfg", cfg_thorough="MC_LocalSearch_deep.cfg")],
    note="Runs of every local search with every neighborhood, both comparisons, several patiences and limits, given and random starts, full and incremental evaluation, up to 140 bits; acceptance and cooling of simulated annealing within six standard deviations; the possible current points are followed exactly. The algorithms are model checked against the rule for every function on two (thorough three) bits.")

add("C20", parts=[dict(driver="evolution", mode="C20", module="EvolutionTrace")],
    design=[dict(module="MC_Evolution", cfg="MC_Evolution.cfg", cfg_thorough="MC_Evolution_deep.cfg")],
    note="Every value vector over three values for populations up to four (thorough five), random ones up to seven hundred, values in any power-of-two unit and infinite; replacement (up to 150 parents and 200 offspring) over random generations with ties; every prefix of tournament rounds decided by an exact criterion for disjoint groups (model checked to be necessary and sufficient); proportions within 5% of the total; generations of the evolutionary algorithms followed with clones and complements.")

_PAR = [dict(module="MC_Pareto", cfg="MC_Pareto.cfg", cfg_thorough="MC_Pareto_deep.cfg")]
add("C24", parts=[dict(driver="mo", mode="C24", module="ParetoTrace")], design=_PAR,
    note="Every population of up to three (thorough four) values over a 3x3 grid and four in one dimension, histories of populations of changing sizes with duplicates up to 300 individuals and eight objectives, infinities and neighbouring doubles; the ranking algorithm is model checked for every population of four.")
add("C25", parts=[dict(driver="mo", mode="C25", module="ParetoTrace")], design=_PAR,
    note="Short runs (populations of three to six, up to four generations, and of up to 24 mostly without ties) followed exactly with every possible tie break of crowding, tournament rounds decided by an exact criterion when offspring are clones or complements; longer runs followed through what they must keep; crossover and mutation rates within seven standard deviations; reruns. Assumes finite integer-valued objectives.")

add("C23", parts=[dict(driver="parallel", mode="C23", module="ParallelTrace")],
    design=[dict(module="MC_Parallel", cfg="MC_Parallel.cfg", cfg_thorough="MC_Parallel_deep.cfg"),
            dict(module="MC_Parallel", cfg="MC_Parallel_shared.cfg", expect="rejected")],
    note="Real teams of one to eight threads with randomly delayed functions that are not thread-safe, populations of 1 to 130 (up to 5000 told by their totals), stacks of controllers over several successive populations; the recorded entries and exits are followed step by step. All schedules of two (thorough three) individuals and threads in the model, where sharing a function is shown to be caught.")

add("C21", parts=[dict(driver="eda", mode="C21", module="EdaTrace")],
    design=[dict(module="MC_Eda", cfg="MC_Eda.cfg", cfg_thorough="MC_Eda_deep.cfg")],
    note="Every generation and the model logged after it are recorded; the specification recomputes the model (UMDA, PBIL, negative-and-positive PBIL, compact GA, MMAS, random latent models of RamUmda, chains of MIMIC, centre and rate of the information-theoretic EA, rates of the two-rate EA) with every way of breaking ties at the selection border. Sampled generations follow the model within six or seven standard deviations. Short strings (at most eight bits, sixteen for the two-rate EA); reruns and two threads included.")

add("C22", parts=[dict(driver="moment", mode="C22", module="MomentTrace")],
    design=[dict(module="MC_Moment", cfg="MC_Moment.cfg", cfg_thorough="MC_Moment_deep.cfg", workers=4)],
    note="Moment arithmetic exact on dyadic values (triangular and full storage); herding followed sample by sample, with any order of the bits when it is randomised; runs of the herding algorithm and of Boltzmann-machine PBIL followed exactly (target moment, errors and norms as logged, chain of the sampler where fields are decisive, every tie of the selection); Gibbs updates within seven standard deviations elsewhere. Moments of up to 20 bits, herding up to 16 (seven when the order is random), Gibbs updates up to 13, algorithms up to 12 (the chain itself up to four).")

add("C27", profile="full", parts=[dict(driver="cli", mode="C27", module="CliTrace")],
    extra_drivers=["repo:app/hnco.cc", "repo:app/hnco-mo.cc", "repo:app/ffgen.cc", "repo:app/mapgen.cc"],
    design=[dict(module="MC_Cli", cfg="MC_Cli.cfg", cfg_thorough="MC_Cli_deep.cfg")],
    note="Runs of every algorithm of the hnco program with random options (function, map, expression, minimisation, budget, cache, target, restart, threads), every evaluation of the concrete function recorded and followed step by step; printed and saved results, solutions and exit status decided from them; the same runs by the real executable; options compared with the library configured by hand; every documented default and every option; queries, refusals, generated instances and maps, several objectives. Assumes integer-valued functions of at most ten bits.")

NOT_APPLICABLE = {}
