---------------------------- MODULE ReduceModel ----------------------------
(***************************************************************************)
(* Values shared out among processes and combined by a reduction in any    *)
(* order: largest (time step), sum (integrals) and smallest (internal      *)
(* energy, where one invalid value must not be lost). NaN is the model     *)
(* value "nan". All processes learn the same result, that of all cells.    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Procs, Cells, Values   \* Values: integers; "nan" is added below
NaN == 1000000
All == Values \cup {NaN}
VARIABLES owner, val, box, got
vars == <<owner, val, box, got>>
Min2(a, b) == IF a = NaN \/ b = NaN THEN NaN ELSE IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Inf == 999999
RECURSIVE Fold(_, _, _)
Fold(op, S, acc) == IF S = {} THEN acc ELSE LET x == CHOOSE y \in S : TRUE IN Fold(op, S \ {x}, IF op = "min" THEN Min2(acc, val[x]) ELSE IF op = "max" THEN Max2(acc, IF val[x] = NaN THEN 0 ELSE val[x]) ELSE acc + (IF val[x] = NaN THEN 0 ELSE val[x]))
Start == [min |-> Inf, max |-> 0, sum |-> 0]
Local(p) == LET mine == {x \in Cells : owner[x] = p} IN [min |-> Fold("min", mine, Inf), max |-> Fold("max", mine, 0), sum |-> Fold("sum", mine, 0)]
Init == /\ owner \in [Cells -> Procs] /\ val \in [Cells -> All]
        /\ box = [value |-> Start, from |-> {}] /\ got = [p \in Procs |-> Start]
Give(p) == /\ p \notin box.from
           /\ LET l == Local(p) IN box' = [value |-> [min |-> Min2(box.value.min, l.min), max |-> Max2(box.value.max, l.max), sum |-> box.value.sum + l.sum], from |-> box.from \cup {p}]
           /\ UNCHANGED <<owner, val, got>>
Take(p) == /\ box.from = Procs /\ got[p] # box.value
           /\ got' = [got EXCEPT ![p] = box.value]
           /\ UNCHANGED <<owner, val, box>>
Next == \E p \in Procs : Give(p) \/ Take(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Whole == [min |-> Fold("min", Cells, Inf), max |-> Fold("max", Cells, 0), sum |-> Fold("sum", Cells, 0)]
Finished == \A p \in Procs : got[p] # Start
WholeKnown == \A p \in Procs : got[p] # Start => got[p] = Whole
InvalidSeen == \A p \in Procs : got[p] # Start => ((\E x \in Cells : val[x] = NaN \/ val[x] < 0) <=> (got[p].min = NaN \/ got[p].min < 0))
AllLearn == <>(\A p \in Procs : got[p] = Whole)
=============================================================================
