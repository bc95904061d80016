---------------------------- MODULE DomainModel ----------------------------
(* The even split with the remainder given to the first processes is a      *)
(* tiling for every size and process count of the bound.                    *)
EXTENDS Domain, TLC
CONSTANTS MaxN, MaxP, ND
VARIABLES N, P, ph
vars == <<N, P, ph>>
Start(n, p, k) == (n \div p) * k + (IF k < n % p THEN k ELSE n % p)
Stop(n, p, k) == Start(n, p, k) + (n \div p) + (IF k < n % p THEN 1 ELSE 0)
Blocks == [r \in (0..P[1]-1) \X (0..P[2]-1) \X (0..P[3]-1) |->
    [coords |-> r, dims |-> P, min |-> [d \in Dirs |-> Start(N[d], P[d], r[d])], max |-> [d \in Dirs |-> Stop(N[d], P[d], r[d])],
     border |-> [d \in Dirs |-> <<r[d] = 0, r[d] = P[d] - 1>>]]]
Sizes(m) == {<<a, b, c>> : a \in 1..m, b \in (IF ND >= 2 THEN 1..m ELSE {1}), c \in (IF ND = 3 THEN 1..m ELSE {1})}
Init == N \in Sizes(MaxN) /\ P \in Sizes(MaxP) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED <<N, P>>
Spec == Init /\ [][Next]_vars
Good == LET B == TLCEval(Blocks) IN /\ Tiles(B, N)
        /\ Balanced(B) /\ Ordered(B) /\ BordersRight(B) /\ LayoutObeyed(B, P, ND)
=============================================================================
