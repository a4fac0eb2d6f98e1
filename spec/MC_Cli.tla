------------------------------- MODULE MC_Cli -------------------------------
(* The program as it is built: a target over a budget and a cache over the   *)
(* tracker, driven by an algorithm that asks for anything and settles on     *)
(* anything it has seen.  What it prints at the end is what Cli says.        *)
EXTENDS Cli
CONSTANTS Pts, Vals, MaxReq
VARIABLES c, f, s, req, memo, calls, st, sol, rc
vars == <<c, f, s, req, memo, calls, st, sol, rc>>

Configs == [expr : {0, 1, 3}, min : BOOLEAN, map : {<<>>}, budget : 0..2, cache : BOOLEAN, cbud : BOOLEAN,
            stop : {0, 2}, goal : {1}, threads : {1}, restart : {FALSE}, conc : {FALSE}]
Init == /\ c \in Configs /\ f \in [Pts -> Vals] /\ s = Fresh /\ req = 0 /\ memo = {} /\ calls = 0
        /\ st = "running" /\ sol = (CHOOSE x \in Pts : TRUE) /\ rc = 0

Reach(d) == c.stop # 0 /\ d >= c.goal
\* one request of the algorithm, through the layers from the outside in
CacheOutside == c.cache /\ (c.budget = 0 \/ ~c.cbud)
Refused(x) == IF c.budget = 0 THEN FALSE
              ELSE IF CacheOutside THEN (x \notin memo /\ calls = c.budget) ELSE calls = c.budget
Ask(x) ==
  /\ st = "running" /\ req < MaxReq
  /\ req' = req + 1
  /\ IF Refused(x) THEN st' = "budget" /\ UNCHANGED <<s, memo, calls, sol>>
     ELSE LET hit == c.cache /\ x \in memo
          IN  /\ s' = IF hit THEN s ELSE Evaluate(c, s, x, f[x])
              /\ memo' = memo \cup {x}
              /\ calls' = IF CacheOutside /\ hit THEN calls ELSE calls + 1
              /\ IF Reach(Deco(c, f[x])) THEN st' = "target" /\ sol' = x
                 ELSE st' = st /\ \E y \in memo \cup {x} : Deco(c, f[y]) = MaxSet({Deco(c, f[z]) : z \in memo \cup {x}}) /\ sol' = y
  /\ UNCHANGED <<c, f, rc>>
Stop == /\ st = "running" /\ req > 0 /\ st' = "ended" /\ UNCHANGED <<c, f, s, req, memo, calls, sol, rc>>
Exit == /\ st \in {"ended", "budget", "target"} /\ s.num > 0
        /\ rc' = IF st = "target" \/ c.stop = 0 THEN 0 ELSE 3
        /\ st' = "exit" \o st /\ UNCHANGED <<c, f, s, req, memo, calls, sol>>
Next == (\E x \in Pts : Ask(x)) \/ Stop \/ Exit
Spec == Init /\ [][Next]_vars

Ended == st \in {"exitended", "exitbudget", "exittarget"}
ExitRight == Ended => rc = ExitStatus(c, s)
\* a reached target is the last evaluation, the best one, and the solution
TargetRight == st \in {"target", "exittarget"} => s.over /\ s.last = sol /\ s.at = s.num /\ s.best >= c.goal
SolRight == Ended => SolutionRight(c, s, sol, TRUE)
BudgetRight == c.budget > 0 => s.num <= c.budget
OnceRight == c.cache => s.num = Cardinality({p[1] : p \in s.vals})
StepsRight == [][s' # s => MayEvaluate(c, s, s'.last)]_vars
=============================================================================
