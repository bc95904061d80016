----------------------------- MODULE ShiftModel -----------------------------
(* A line of N cells in blocks, one per process, each with ghost cells, whose *)
(* grid follows the flow. A step updates every block from its own arrays,    *)
(* refills the ghosts, then may shift: every process moves its own arrays by *)
(* one cell - its outermost interior cell takes its first ghost - and refills *)
(* the ghosts. The design is right if the blocks together always hold what   *)
(* one array over the whole line would, and each kept value stays where it   *)
(* is in space.                                                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Splits,   \* sequences of block widths
          Ngs,      \* ghost layers
          Limits,   \* outer radius limits
          Values, Steps
VARIABLES split, ng, limit, bc, x, local, line, pc, over, n
vars == <<split, ng, limit, bc, x, local, line, pc, over, n>>
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
N == Sum(split, Len(split))
Off(p) == Sum(split, p - 1)
Max(s) == CHOOSE v \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= v
(* the whole line with ghosts: i in 1-ng..N+ng *)
Image(l, i) == IF i < 1 THEN (IF bc = "Periodic" THEN l[i + N] ELSE l[1]) ELSE IF i > N THEN (IF bc = "Periodic" THEN l[i - N] ELSE l[N]) ELSE l[i]
(* bc is the condition of both borders at the start; when shifting is over the outer one copies *)
Ext(l, i) == IF i > N /\ over THEN l[N] ELSE Image(l, i)
Full(l) == [p \in 1..Len(split) |-> [i \in 1-ng..split[p]+ng |-> Ext(l, Off(p) + i)]]
(* what the exchange and the border conditions make of the blocks: from the owners *)
Owner(g) == CHOOSE p \in 1..Len(split) : Off(p) < g /\ g <= Off(p) + split[p]
Filled(a, ov) == LET gl == [g \in 1..N |-> a[Owner(g)][g - Off(Owner(g))]]
                     at(g) == IF g > N /\ ov THEN gl[N] ELSE IF g < 1 THEN (IF bc = "Periodic" THEN gl[g + N] ELSE gl[1]) ELSE IF g > N THEN (IF bc = "Periodic" THEN gl[g - N] ELSE gl[N]) ELSE gl[g]
                 IN [p \in 1..Len(split) |-> [i \in 1-ng..split[p]+ng |-> IF i \in 1..split[p] THEN a[p][i] ELSE at(Off(p) + i)]]
Init == /\ split \in Splits /\ ng \in Ngs /\ limit \in Limits /\ bc \in {"Null", "Periodic"}
        /\ \A p \in DOMAIN split : split[p] >= ng
        /\ x = [i \in 1-ng..N+1+ng |-> i] /\ over = FALSE /\ n = 0 /\ pc = "update"
        /\ line \in [1..N -> Values]
        /\ local = Full(line)
(* the flow: a cell becomes something that depends on its neighbours *)
Flow(a, b, z) == (a + 2 * b + 3 * z + 1) % 5
Update == /\ pc = "update" /\ n < Steps
          /\ local' = [p \in DOMAIN local |-> [i \in DOMAIN local[p] |-> IF i \in 1..split[p] THEN Flow(local[p][i - 1], local[p][i], local[p][i + 1]) ELSE local[p][i]]]
          /\ line' = [i \in 1..N |-> Flow(Ext(line, i - 1), line[i], Ext(line, i + 1))]
          /\ pc' = "fill" /\ n' = n + 1 /\ UNCHANGED <<split, ng, limit, bc, x, over>>
Fill == /\ pc = "fill" /\ local' = Filled(local, over) /\ pc' = "ask" /\ UNCHANGED <<split, ng, limit, bc, x, line, over, n>>
No == pc = "ask" /\ pc' = "update" /\ UNCHANGED <<split, ng, limit, bc, x, local, line, over, n>>
Move == /\ pc = "ask" /\ ~over /\ x[N + 2] < limit
        /\ local' = [p \in DOMAIN local |-> [i \in DOMAIN local[p] |-> IF i < split[p] + ng THEN local[p][i + 1] ELSE local[p][i]]]
        /\ line' = [i \in 1..N |-> Ext(line, i + 1)]
        /\ x' = [i \in DOMAIN x |-> IF i < N + 1 + ng THEN x[i + 1] ELSE 2 * x[i] - x[i - 1]]
        /\ pc' = "refill" /\ UNCHANGED <<split, ng, limit, bc, over, n>>
Stop == /\ pc = "ask" /\ ~over /\ x[N + 2] >= limit /\ over' = TRUE
        /\ pc' = "refill" /\ UNCHANGED <<split, ng, limit, bc, x, local, line, n>>
Refill == /\ pc = "refill" /\ local' = Filled(local, over) /\ pc' = "update" /\ UNCHANGED <<split, ng, limit, bc, x, line, over, n>>
Next == Update \/ Fill \/ No \/ Move \/ Stop \/ Refill
Spec == Init /\ [][Next]_vars
Interiors == \A p \in DOMAIN split : \A i \in 1..split[p] : local[p][i] = line[Off(p) + i]
Together == pc = "update" => local = Full(line)
Regular == \A i \in DOMAIN x : i < N + 1 + ng => x[i + 1] - x[i] = 1
Within == x[N + 1] > N + 1 => x[N + 1] < limit
(* a shift leaves every value at its place in space, and only the innermost cell is lost *)
Stays == [][x' # x => \A i \in 1..N : (\E j \in 1..N : x'[j] = x[i] /\ line'[j] = line[i]) \/ i = 1]_vars
Ends == [][over => over' /\ x' = x]_vars
=============================================================================
