------------------------------- MODULE Domain -------------------------------
(***************************************************************************)
(* The global box of cells, the blocks of the processes, the loops over a  *)
(* block with ghost layers, and what ghost cells hold after an exchange    *)
(* and after the border conditions.                                        *)
(*                                                                         *)
(* Directions are 0, 1, 2 in the text and 1, 2, 3 as sequence indices.     *)
(* A border is 2*direction + side (side 0 = left, 1 = right).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Dirs == 1..3

(* ----- blocks ----- *)
InBlock(b, cell) == \A d \in Dirs : b.min[d] <= cell[d] /\ cell[d] < b.max[d]
CellsOf(N) == (0..N[1]-1) \X (0..N[2]-1) \X (0..N[3]-1)
Within(blocks, N) == \A r \in DOMAIN blocks : \A d \in Dirs : 0 <= blocks[r].min[d] /\ blocks[r].min[d] <= blocks[r].max[d] /\ blocks[r].max[d] <= N[d]
OneOwner(blocks, N) == \A c \in CellsOf(N) : Cardinality({r \in DOMAIN blocks : InBlock(blocks[r], c)}) = 1
Tiles(blocks, N) == Within(blocks, N) /\ OneOwner(blocks, N)
Width(b, d) == b.max[d] - b.min[d]
Balanced(blocks) == \A a, b \in DOMAIN blocks : \A d \in Dirs : Width(blocks[a], d) - Width(blocks[b], d) \in {-1, 0, 1}
Ordered(blocks) == \A a, b \in DOMAIN blocks : \A d \in Dirs :
    /\ blocks[a].coords[d] < blocks[b].coords[d] => blocks[a].max[d] <= blocks[b].min[d]
    /\ blocks[a].coords[d] = blocks[b].coords[d] => blocks[a].max[d] = blocks[b].max[d] /\ blocks[a].min[d] = blocks[b].min[d]
(* a block lies beyond side s of block a in direction d *)
Beyond(blocks, a, d, s) == \E b \in DOMAIN blocks :
    /\ \A e \in Dirs \ {d} : blocks[b].coords[e] = blocks[a].coords[e]
    /\ IF s = 0 THEN blocks[b].coords[d] < blocks[a].coords[d] ELSE blocks[b].coords[d] > blocks[a].coords[d]
BordersRight(blocks) == \A a \in DOMAIN blocks : \A d \in Dirs : \A s \in {0, 1} : blocks[a].border[d][s+1] = ~Beyond(blocks, a, d, s)
Product(s) == s[1] * s[2] * s[3]
(* layout asked for: 0 = left to the program *)
LayoutObeyed(blocks, asked, ndim) == \A r \in DOMAIN blocks :
    /\ Product(blocks[r].dims) = Cardinality(DOMAIN blocks)
    /\ \A d \in Dirs : /\ d > ndim => blocks[r].dims[d] = 1
                       /\ d <= ndim /\ asked[d] > 0 => blocks[r].dims[d] = asked[d]
                       /\ blocks[r].coords[d] \in 0..blocks[r].dims[d]-1
    /\ \A q \in DOMAIN blocks : q # r => blocks[q].coords # blocks[r].coords

(* ----- loops ----- *)
Layers(ndim, d, k) == IF d <= ndim THEN k ELSE 0
(* cells of a block enlarged by k layers, relative to its first interior cell *)
Enlarged(lo, hi, ndim, k) == {<<x, y, z>> : x \in (0 - Layers(ndim, 1, k))..(hi[1] - lo[1] + Layers(ndim, 1, k) - 1),
                                              y \in (0 - Layers(ndim, 2, k))..(hi[2] - lo[2] + Layers(ndim, 2, k) - 1),
                                              z \in (0 - Layers(ndim, 3, k))..(hi[3] - lo[3] + Layers(ndim, 3, k) - 1)}
RangeUsable(lo, hi) == \A d \in Dirs : lo[d] >= 0 /\ hi[d] >= lo[d]

(* ----- ghost cells ----- *)
Wrap(x, n) == ((x % n) + n) % n
WrapCell(S, cell) == [d \in Dirs |-> Wrap(cell[d], S.n[d])]
DirOf(b) == (b \div 2) + 1
(* the cell lies in the ghost layers beyond border b *)
InSlab(S, b, cell) == IF b % 2 = 0 THEN cell[DirOf(b)] < 0 ELSE cell[DirOf(b)] >= S.n[DirOf(b)]
LastInside(S, b, cell) == [cell EXCEPT ![DirOf(b)] = IF b % 2 = 0 THEN 0 ELSE S.n[DirOf(b)] - 1]
Mirror(S, b, cell) == [cell EXCEPT ![DirOf(b)] = IF b % 2 = 0 THEN -1 - @ ELSE 2 * S.n[DirOf(b)] - 1 - @]
Toggle(set, d) == IF d \in set THEN set \ {d} ELSE set \cup {d}

(* Where the value of a cell comes from once the first m conditions of the  *)
(* application order S.app have been applied: an interior cell (with the    *)
(* directions whose momentum is reversed) or the user code of a border.     *)
RECURSIVE Source(_, _, _)
Source(S, cell, m) ==
    IF m = 0 THEN [cell |-> WrapCell(S, cell), flips |-> {}, user |-> -1]
    ELSE LET b == S.app[m] IN
         IF ~InSlab(S, b, cell) THEN Source(S, cell, m - 1)
         ELSE CASE S.bc[b + 1] = "Periodic" -> Source(S, cell, m - 1)
                [] S.bc[b + 1] = "NullGradient" -> Source(S, LastInside(S, b, cell), m - 1)
                [] S.bc[b + 1] = "Reflexive" -> LET s == Source(S, Mirror(S, b, cell), m - 1) IN [s EXCEPT !.flips = Toggle(@, DirOf(b))]
                [] OTHER -> [cell |-> <<0, 0, 0>>, flips |-> {}, user |-> b]
Final(S, cell) == Source(S, cell, Len(S.app))
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
DefaultOrder(ndim) == [i \in 1..2*ndim |-> i - 1]
(* the order in which conditions are applied: the last one wins the edges *)
Application(prio, ndim) == IF prio = <<>> THEN DefaultOrder(ndim) ELSE Reverse(prio)
PriorityUsable(prio, ndim) == prio = <<>> \/ (Len(prio) = 2*ndim /\ {prio[i] : i \in 1..Len(prio)} = 0..2*ndim-1)
=============================================================================
