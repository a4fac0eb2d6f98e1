------------------------------ MODULE CliTrace ------------------------------
(* Recorded runs of the command line programs (C27).                         *)
EXTENDS Cli, TraceLib
VARIABLES i, c, s
vars == <<i, c, s>>

Idle == [alg |-> 0]
\* (1+(lambda,lambda)) considers the offspring of the crossover only
Keeps(a) == a # 450
ShownRight(r) ==
  /\ IF c.pres THEN ResultsRight(c, s, r.p) ELSE ~r.p.ok
  /\ IF c.sres THEN ResultsRight(c, s, r.s) ELSE ~r.s.ok
  /\ IF c.psol THEN SolutionRight(c, s, r.psol, Keeps(c.alg)) ELSE r.psol = -1
  /\ IF c.ssol THEN SolutionRight(c, s, r.ssol, Keeps(c.alg)) ELSE r.ssol = -1
  /\ (c.psol /\ c.ssol) => r.psol = r.ssol
  /\ (c.pres /\ c.sres) => r.p = r.s
  /\ r.imp = (IF c.logi THEN s.imp ELSE <<>>)
  /\ r.clean /\ r.same /\ r.files
  /\ (c.ssol /\ ~c.conc) => r.reload = ValueOf(s, Concrete(c, r.ssol))

Yes(b) == IF b THEN "yes\n" ELSE "no\n"
FnRight(r) ==
  /\ r.rc = 0 /\ r.once /\ r.got = r.want
  /\ r.size = [rc |-> 0, out |-> r.sz]
  /\ r.has = [rc |-> 0, out |-> Yes(r.known)]
  /\ r.inc = [rc |-> 0, out |-> Yes(r.incr)]
  /\ r.max = IF r.known THEN [rc |-> 0, out |-> r.top] ELSE [rc |-> 1, out |-> ""]
  /\ r.disp

Right(r) ==
  CASE r.e = "same" -> r.a = r.b /\ r.a.rc = 0 /\ Len(r.a.evs) > 0
    [] r.e = "fn" -> FnRight(r)
    [] r.e = "walsh" -> r.rc = 0 /\ WalshRight(r.n, r.c, r.rows)
    [] r.e = "defaults" -> DefaultsRight(r)
    [] r.e = "param" -> ParamRight(r)
    [] r.e = "refuse" -> r.rc = 1 /\ r.out = ""
    [] r.e = "gen" -> r.rc = 0 /\ r.again /\ r.loaded /\ r.n = r.want
    [] r.e = "weights" -> r.rc = 0 /\ r.n = r.want /\ WeightsRight(r)
    [] r.e = "noise" -> NoiseRight(r)
    [] r.e = "human" -> HumanRight(r)
    [] r.e = "parsed" -> ParsedRight(r)
    [] r.e = "clauses" -> r.rc = 0 /\ r.n = r.want /\ ClausesRight(r)
    [] r.e = "cells" -> r.rc = 0 /\ r.size = r.want /\ r.same
    [] r.e = "half" -> r.rc = 0 /\ HalfRight(r)
    [] r.e = "scale" -> /\ r.rc = 0 /\ r.n = r.want /\ Near(r.one, r.n, 682689) /\ Near(r.two, r.n, 954500) /\ Near(r.up, r.n, 500000)
    [] r.e = "planted" -> r.rc = 0 /\ r.n = r.want /\ r.top = r.m
    [] r.e = "ising" -> r.rc = 0 /\ IsingRight(r)
    [] r.e = "mapgen" -> r.rc = 0 /\ r.rcs = 0 /\ r.size = r.want /\ MapRight(r)
    [] r.e = "mo" -> r.rc = 0 /\ r.again /\ r.osize = r.owant /\ r.size = r.want /\ FrontRight(r)
    [] r.e = "reload" -> r.rc = 0 /\ r.value = r.again /\ r.twice
    [] OTHER -> FALSE

Step(r) ==
  CASE r.e = "start" -> c' = r.c /\ s' = Fresh
    [] r.e = "ev" -> /\ (c # Idle /\ r.v = r.f /\ MayEvaluate(c, s, r.x)) = TRUE
                     /\ s' = Evaluate(c, s, r.x, r.v) /\ c' = c
    [] r.e = "end" -> /\ (c # Idle /\ s.num > 0 /\ r.rc = ExitStatus(c, s) /\ ShownRight(r)) = TRUE
                      /\ c' = Idle /\ s' = Fresh
    [] OTHER -> Right(r) = TRUE /\ UNCHANGED <<c, s>>

Init == i = 1 /\ c = Idle /\ s = Fresh
Next == i <= NRec /\ i' = i + 1 /\ Step(Trace[i])
=============================================================================
