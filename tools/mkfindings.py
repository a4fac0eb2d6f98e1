#!/usr/bin/env python3
"""Write known_findings.json: defects repaired in /repo (fixed: suppress nothing) and recorded ones (known)."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = {
 "Cache forwards registered": ("C04", "evaluations registered through update never reached the function under a cache (budgets below it were not spent)"),
 "StopOnTarget and ProgressTracker": ("C02", "incremental evaluations recorded the origin instead of the evaluated bit vector (also C03)"),
 "NpsPbil computes": ("C21", "the mean of the worst individuals was computed from the best ones"),
 "RamUmda2 learns": ("C21", "the probability vector was not learned from the selected individuals"),
 "do not evaluate candidates again": ("C26", "CompactGa evaluated candidates again inside an assertion"),
 "OnePlusLambdaCommaLambdaGa stays": ("C18", "out of range access when all offsprings have the same value"),
 "RandomWalk starts": ("C19", "incremental evaluation started from an undefined value"),
 "TournamentSelection returns": ("C20", "the last winner was drawn from a shuffled population"),
 "TriangularMomentGibbsSampler": ("C22", "update_sync read outside of the triangular matrix"),
 "infinite norms": ("C22", "infinite norms ignored negative moments"),
 "OppositeFunction provides": ("C05", "incremental evaluation announced although the negated function has none"),
 "StandardBitMutation honours": ("C12", "the no mutation flag was ignored when sampling by rejection"),
 "transvection sampling": ("C14", "sampled sequences were appended to what the sequence contained"),
 "bm_solve_upper_triangular": ("C13", "singular triangular systems were reported as solved"),
 "random Sudoku": ("C08", "random Sudoku instances had no variable"),
 "NkLandscape can be": ("C08", "a second generation with another number of neighbors kept the old neighbors"),
 "Qubo reads": ("C09", "coefficients were read in single precision"),
 "a random solution refused": ("C18", "an interrupted random restart left a solution with a value it never had"),
 "Restart reports": ("C18", "the best solution of the interrupted run was lost"),
 "Nsga2 uses its crossover": ("C25", "the crossover probability was ignored"),
 "Nsga2 can be run again": ("C25", "a second run started from a truncated population"),
 "the prior noise neighborhood": ("C27", "the prior noise neighborhood had the size of the function before composition"),
 "the description of the solution": ("C27", "the map was applied twice when describing the solution"),
 "evaluating a loaded solution": ("C27", "evaluating a loaded solution triggered stopping criteria"),
 "AbstractMaxSat::load refuses": ("C09", "files without p line or with blank clauses crashed or were accepted"),
 "Qubo::load refuses": ("C09", "files without p line crashed"),
 "Factorization::load refuses": ("C09", "empty or malformed files crashed or were accepted"),
 "Tsp::load refuses": ("C09", "missing, unreadable or out of range cities were accepted"),
}
FIX.update({k: tuple(v) for k, v in json.load(open(os.path.join(H, "tools", "fixes.json"))).items()} if os.path.exists(os.path.join(H, "tools", "fixes.json")) else {})
KNOWN = []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
fixed = []
for l in reversed(log):
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    k = [k for k in FIX if s[5:].startswith(k)]
    assert len(k) == 1, s
    fixed.append("fixed: property=%s %s %s" % (FIX[k[0]][0], h, FIX[k[0]][1]))
json.dump({"known": KNOWN, "fixed": fixed}, open(os.path.join(H, "known_findings.json"), "w"), indent=1)
print(len(fixed), "fixed", len(KNOWN), "known")
