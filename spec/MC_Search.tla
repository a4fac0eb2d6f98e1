----------------------------- MODULE MC_Search -------------------------------
(* Design model of the algorithms' bookkeeping: generations of Lambda points *)
(* are evaluated one by one into a buffer, the solution is updated at the    *)
(* end of the generation, runs may be restarted, and an evaluation may be    *)
(* refused at any time.  It refines Search: whatever the function and the    *)
(* interruption, the solution held satisfies the reporting rules.            *)
EXTENDS Search
CONSTANTS Points, Values, Lambda, MaxEval, Eager, Restarts
VARIABLES f, sol, buf, s, status, outer, runs
vars == <<f, sol, buf, s, status, outer, runs>>

None == <<0, 0>>
Cfg == IF Restarts THEN [now |-> 1, step |-> 1, skip |-> 0, lag |-> Lambda]
       ELSE [now |-> 1, step |-> IF Eager THEN 1 ELSE Lambda, skip |-> 0, lag |-> -1]

Init == /\ f \in [Points -> Values] /\ sol = None /\ buf = <<>> /\ s = Start(Cfg)
        /\ status = "fresh" /\ outer = None /\ runs = 0

BestOf(b) == CHOOSE p \in {b[k] : k \in DOMAIN b} : \A q \in {b[k] : k \in DOMAIN b} : p[2] >= q[2]
Upd(p, q) == IF q[2] > p[2] THEN q ELSE p

\* first evaluation of a run: the solution is set, not updated
First == /\ status = "fresh" /\ Len(s.hist) < MaxEval
         /\ \E x \in Points : /\ sol' = <<x, f[x]>> /\ s' = Evaluate(s, x, f[x])
         /\ status' = "run" /\ UNCHANGED <<f, buf, outer, runs>>
One == /\ status = "run" /\ Len(s.hist) < MaxEval /\ Len(buf) < Lambda
       /\ \E x \in Points :
            /\ s' = Evaluate(s, x, f[x])
            /\ IF Eager THEN sol' = Upd(sol, <<x, f[x]>>) /\ buf' = <<>>
               ELSE IF Len(buf) + 1 = Lambda
                    THEN sol' = Upd(sol, BestOf(Append(buf, <<x, f[x]>>))) /\ buf' = <<>>
                    ELSE buf' = Append(buf, <<x, f[x]>>) /\ sol' = sol
       /\ UNCHANGED <<f, status, outer, runs>>
\* a run ends between generations
RunEnds == /\ Restarts /\ status = "run" /\ buf = <<>> /\ runs < 2
           /\ outer' = Upd(outer, sol) /\ status' = "fresh" /\ runs' = runs + 1
           /\ UNCHANGED <<f, sol, buf, s>>
Stop == /\ status \in {"run", "fresh"} /\ Len(s.hist) > 0 /\ status' = "stopped"
        /\ outer' = Upd(outer, sol)
        /\ UNCHANGED <<f, sol, buf, s, runs>>
Done == /\ status = "run" /\ buf = <<>> /\ status' = "done" /\ outer' = Upd(outer, sol)
        /\ UNCHANGED <<f, sol, buf, s, runs>>
Next == First \/ One \/ RunEnds \/ Stop \/ Done

Reported == IF Restarts THEN outer ELSE sol
Sound == /\ status = "stopped" => ReportedOnStop(s, Reported[1], Reported[2])
         /\ status = "done" => ReportedAtEnd(s, Reported[1], Reported[2])
=============================================================================
