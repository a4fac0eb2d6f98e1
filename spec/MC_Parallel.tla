----------------------------- MODULE MC_Parallel -----------------------------
(* Threads of a team take individuals (any distribution), each evaluation    *)
(* writes a scratch buffer of the function then reads it back, writes the    *)
(* value of its individual; after the join the controllers are told in       *)
(* order.  For every schedule the outcome is the sequential one.  With       *)
(* Shared = TRUE the team shares one function: the model then finds the      *)
(* race, which shows that it can (MC_Parallel_shared.cfg, expected to fail). *)
EXTENDS Parallel
CONSTANTS N, T, Shared
VARIABLES stack, f, xs, pc, mine, scratch, taken, vals, p
vars == <<stack, f, xs, pc, mine, scratch, taken, vals, p>>

Points == BitVectors(2)
Stacks == {<<[k |-> "tracker", p |-> 0], [k |-> "budget", p |-> 2]>>,
           <<[k |-> "budget", p |-> 1], [k |-> "tracker", p |-> 0]>>,
           <<[k |-> "target", p |-> 2], [k |-> "tracker", p |-> 0]>>,
           <<[k |-> "counter", p |-> 0], [k |-> "target", p |-> 1]>>,
           <<[k |-> "tracker", p |-> 0], [k |-> "target", p |-> 2], [k |-> "budget", p |-> 3]>>}
Tables == {<<0, 1, 1, 2>>, <<-3, -1, -2, -1>>}
Stack0 == <<Layer("base", 0)>> \o [j \in 1..Len(stack) |-> Layer(stack[j].k, stack[j].p)]
Fn(t) == IF Shared THEN 1 ELSE t
Nfn == IF Shared THEN 1 ELSE T

Init == /\ stack \in Stacks /\ \E t \in Tables : f = [kind |-> "table", t |-> t, c |-> 0]
        /\ xs \in [1..N -> Points]
        /\ pc = [t \in 1..T |-> "idle"] /\ mine = [t \in 1..T |-> 0]
        /\ scratch = [k \in 1..Nfn |-> NoPoint] /\ taken = {} /\ vals = [j \in 1..N |-> 0]
        /\ p = Open(xs, Nfn)

Take(t) == /\ pc[t] = "idle"
           /\ \E j \in (1..N) \ taken : taken' = taken \cup {j} /\ mine' = [mine EXCEPT ![t] = j]
           /\ pc' = [pc EXCEPT ![t] = "write"]
           /\ UNCHANGED <<stack, f, xs, scratch, vals, p>>
Write(t) == /\ pc[t] = "write"
            /\ scratch' = [scratch EXCEPT ![Fn(t)] = xs[mine[t]]]
            /\ p' = (IF Shared THEN p ELSE Start(p, t, xs[mine[t]]))
            /\ pc' = [pc EXCEPT ![t] = "read"]
            /\ UNCHANGED <<stack, f, xs, mine, taken, vals>>
Read(t) == /\ pc[t] = "read"
           /\ vals' = [vals EXCEPT ![mine[t]] = BaseValue(f, scratch[Fn(t)])]
           /\ p' = (IF Shared THEN p ELSE Finish(p, t))
           /\ pc' = [pc EXCEPT ![t] = "idle"]
           /\ UNCHANGED <<stack, f, xs, mine, scratch, taken>>
Next == \E t \in 1..T : Take(t) \/ Write(t) \/ Read(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Joined == taken = 1..N /\ \A t \in 1..T : pc[t] = "idle"
\* every step of the team is a step of Parallel
Follows == [][ \A t \in 1..T : /\ (pc[t] = "write" /\ pc'[t] = "read") => CanStart(p, t, xs[mine[t]])
                               /\ (pc[t] = "read" /\ pc'[t] = "idle") => CanFinish(p, t, xs[mine[t]]) ]_vars
ValuesRight == Joined => vals = Values(f, xs)
AllServed == (~Shared /\ Joined) => AllDone(p)
\* registering in order is evaluating in order
AsSequential == Joined =>
  LET a == Serve(Stack0, f, "upd", xs, 1)
      b == Serve(Stack0, f, "eval", xs, 1)
  IN  a.out = b.out /\ \A j \in 2..Len(a.L) : Shown(a.L[j]) = Shown(b.L[j])
Ends == <>Joined
=============================================================================
