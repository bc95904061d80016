---------------------------- MODULE BorderModel ----------------------------
(***************************************************************************)
(* Border conditions applied block by block on the blocks' own arrays, as  *)
(* the processes do, give the values of Domain!Source, whatever the        *)
(* conditions, the order and the layout; a border listed earlier in the    *)
(* priority list decides the cells where several borders meet.             *)
(***************************************************************************)
EXTENDS Domain, TLC
CONSTANTS N, P, Ng, ND, Bcs
VARIABLES bc, prio, arr, m
vars == <<bc, prio, arr, m>>
Start(n, p, k) == (n \div p) * k + (IF k < n % p THEN k ELSE n % p)
Stop(n, p, k) == Start(n, p, k) + (n \div p) + (IF k < n % p THEN 1 ELSE 0)
Procs == (0..P[1]-1) \X (0..P[2]-1) \X (0..P[3]-1)
Lo(r, d) == Start(N[d], P[d], r[d])
Hi(r, d) == Stop(N[d], P[d], r[d])
L(d) == Layers(ND, d, Ng)
Local(r) == (Lo(r,1)-L(1)..Hi(r,1)+L(1)-1) \X (Lo(r,2)-L(2)..Hi(r,2)+L(2)-1) \X (Lo(r,3)-L(3)..Hi(r,3)+L(3)-1)
Perms == {p \in [1..2*ND -> 0..2*ND-1] : \A i, j \in 1..2*ND : i # j => p[i] # p[j]}
S == [n |-> N, bc |-> bc, app |-> Application(prio, ND)]
AtBorder(r, b) == r[DirOf(b)] = (IF b % 2 = 0 THEN 0 ELSE P[DirOf(b)] - 1)
Init == /\ bc \in [1..2*ND -> Bcs] /\ prio \in Perms \cup {<<>>} /\ m = 0
        /\ arr = [r \in Procs |-> [c \in Local(r) |-> [cell |-> WrapCell([n |-> N], c), flips |-> {}, user |-> -1]]]
Apply(r, b) ==
    IF ~AtBorder(r, b) THEN arr[r]
    ELSE [c \in Local(r) |-> IF ~InSlab(S, b, c) THEN arr[r][c]
          ELSE CASE bc[b+1] = "Periodic" -> arr[r][c]
                 [] bc[b+1] = "NullGradient" -> arr[r][LastInside(S, b, c)]
                 [] bc[b+1] = "Reflexive" -> [arr[r][Mirror(S, b, c)] EXCEPT !.flips = Toggle(@, DirOf(b))]
                 [] OTHER -> [cell |-> <<0, 0, 0>>, flips |-> {}, user |-> b]]
Next == /\ m < 2*ND /\ m' = m + 1 /\ UNCHANGED <<bc, prio>>
        /\ arr' = [r \in Procs |-> Apply(r, Application(prio, ND)[m + 1])]
Spec == Init /\ [][Next]_vars
Agrees == \A r \in Procs : \A c \in Local(r) : arr[r][c] = Source(S, c, m)
InteriorKept == \A r \in Procs : \A c \in Local(r) : (\A d \in Dirs : c[d] \in 0..N[d]-1) => arr[r][c].cell = c /\ arr[r][c].flips = {}
(* user code at the border listed first fills every cell beyond that border *)
FirstWins == m = 2*ND /\ prio # <<>> /\ bc[prio[1]+1] = "UserDefined" =>
    \A r \in Procs : AtBorder(r, prio[1]) => \A c \in Local(r) : InSlab(S, prio[1], c) => arr[r][c].user = prio[1]
=============================================================================
