----------------------------- MODULE LoopModel -----------------------------
(* A loop carried out cell by cell in any order visits the enlarged block    *)
(* exactly once; the number of cells is the product of the enlarged widths.  *)
EXTENDS Domain, TLC
CONSTANTS MaxW, MaxG
VARIABLES hi, nd, k, todo, seen
vars == <<hi, nd, k, todo, seen>>
Init == /\ nd \in 1..3 /\ k \in 0..MaxG
        /\ hi \in {<<a, b, e>> : a \in 1..MaxW, b \in 1..MaxW, e \in 1..MaxW}
        /\ todo = <<0 - Layers(nd, 1, k), 0 - Layers(nd, 2, k), 0 - Layers(nd, 3, k)>> /\ seen = 0
Lim(d) == hi[d] + Layers(nd, d, k)
Beg(d) == 0 - Layers(nd, d, k)
(* odometer: first direction fastest *)
Bump(t) == IF t[1] + 1 < Lim(1) THEN <<t[1] + 1, t[2], t[3]>>
           ELSE IF t[2] + 1 < Lim(2) THEN <<Beg(1), t[2] + 1, t[3]>> ELSE <<Beg(1), Beg(2), t[3] + 1>>
Next == todo[3] < Lim(3) /\ todo' = Bump(todo) /\ seen' = seen + 1 /\ UNCHANGED <<hi, nd, k>>
Spec == Init /\ [][Next]_vars
Once == todo[3] < Lim(3) => todo \in Enlarged(<<0, 0, 0>>, hi, nd, k)
Sizes == todo[3] = Lim(3) => seen = Cardinality(Enlarged(<<0, 0, 0>>, hi, nd, k)) /\ seen = (hi[1] + 2 * Layers(nd, 1, k)) * (hi[2] + 2 * Layers(nd, 2, k)) * (hi[3] + 2 * Layers(nd, 3, k))
=============================================================================
