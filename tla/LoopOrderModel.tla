--------------------------- MODULE LoopOrderModel ---------------------------
(* Every loop of N short iterations over the elements 1..M: iterations read   *)
(* and write elements one access at a time, in any interleaving. Values are   *)
(* terms that tell who computed them from what.                               *)
(*  - a loop that is Free ends the same way under every interleaving;         *)
(*  - one that is not (unread reads aside) ends differently when its          *)
(*    iterations run in the opposite order: comparing two whole runs in       *)
(*    opposite orders, on data without coincidences, misses none.             *)
EXTENDS Loops, FiniteSets, TLC
CONSTANTS N, M, Length
Iters == 1..N
Ops == {"r", "w"} \X (1..M)
Programs == UNION {[1..l -> Ops] : l \in 1..Length}
VARIABLES prog, pc, seen, mem
vars == <<prog, pc, seen, mem>>
Start == [m \in 1..M |-> <<0, <<m>>>>]
Init == /\ prog \in [Iters -> Programs]
        /\ pc = [i \in Iters |-> 1]
        /\ seen = [i \in Iters |-> <<>>]
        /\ mem = Start
Access(i) == /\ pc[i] <= Len(prog[i])
             /\ LET op == prog[i][pc[i]] IN
                IF op[1] = "r" THEN seen' = [seen EXCEPT ![i] = Append(@, mem[op[2]])] /\ UNCHANGED mem
                ELSE mem' = [mem EXCEPT ![op[2]] = <<i, seen[i]>>] /\ UNCHANGED seen
             /\ pc' = [pc EXCEPT ![i] = @ + 1]
             /\ UNCHANGED prog
Next == \E i \in Iters : Access(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == \A i \in Iters : pc[i] > Len(prog[i])
(* one iteration after the other *)
RECURSIVE Run(_, _, _, _)
Run(i, k, s, m) == IF k > Len(prog[i]) THEN m
                   ELSE LET op == prog[i][k] IN
                        IF op[1] = "r" THEN Run(i, k + 1, Append(s, m[op[2]]), m) ELSE Run(i, k + 1, s, [m EXCEPT ![op[2]] = <<i, s>>])
RECURSIVE Forward(_, _)
Forward(i, m) == IF i > N THEN m ELSE Forward(i + 1, Run(i, 1, <<>>, m))
RECURSIVE Reverse(_, _)
Reverse(i, m) == IF i < 1 THEN m ELSE Reverse(i - 1, Run(i, 1, <<>>, m))
(* the accesses of the loop in the form of Loops; used: only reads a later write depends on *)
Numbers(S) == LET RECURSIVE Up(_, _) Up(k, s) == IF k > N THEN s ELSE Up(k + 1, IF k \in S THEN Append(s, k) ELSE s) IN Up(1, <<>>)
Writers(m) == {i \in Iters : \E k \in DOMAIN prog[i] : prog[i][k] = <<"w", m>>}
Readers(m, used) == {i \in Iters : \E k \in DOMAIN prog[i] : prog[i][k] = <<"r", m>> /\ (used => \E l \in (k + 1)..Len(prog[i]) : prog[i][l][1] = "w")}
Written == Numbers({m \in 1..M : Writers(m) # {}})
Accesses(used) == [k \in DOMAIN Written |-> <<Numbers(Writers(Written[k])), Numbers(Readers(Written[k], used))>>]
Deterministic == Done /\ Free(Accesses(FALSE)) => mem = Forward(1, Start)
TwoOrdersTell == mem = Start /\ (\A i \in Iters : pc[i] = 1) => (Free(Accesses(TRUE)) <=> Forward(1, Start) = Reverse(N, Start))
=============================================================================
