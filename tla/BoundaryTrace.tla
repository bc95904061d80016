--------------------------- MODULE BoundaryTrace ---------------------------
(* Recorded ghost refreshes: for one block of one run, every value of every  *)
(* array after the exchange and the border conditions. Values are whole      *)
(* numbers: density = number of the cell (or of the border's user code),     *)
(* momentum component a = 10 * number + a, energy = 100 * number, scalar a = *)
(* 1000 * number + a.                                                        *)
EXTENDS Domain, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE
Id(r, s) == IF s.user >= 0 THEN -100 - s.user ELSE 1 + s.cell[1] + r.n[1] * (s.cell[2] + r.n[2] * s.cell[3])
Conforms ==
    LET r == Cases[c] IN
    IF ~PriorityUsable(r.prio, r.ndim) \/ r.badorder THEN (r.refused /\ r.rho = <<>>) \/ Say("priority list not refused", r.order)
    ELSE LET S == [n |-> r.n, bc |-> r.bc, app |-> Application(r.prio, r.ndim)]
             ext == [d \in Dirs |-> r.max[d] - r.min[d] + 2 * Layers(r.ndim, d, r.ng)]
             At(i) == <<(i % ext[1]) + r.min[1] - Layers(r.ndim, 1, r.ng), ((i \div ext[1]) % ext[2]) + r.min[2] - Layers(r.ndim, 2, r.ng), (i \div (ext[1] * ext[2])) + r.min[3] - Layers(r.ndim, 3, r.ng)>>
             Bad(i) == LET s == Final(S, At(i - 1)) id == Id(r, s) IN
                ~( /\ r.rho[i] = id
                   /\ r.E[i] = 100 * id
                   /\ \A a \in 1..r.ndim : r.rhou[a][i] = (IF a \in s.flips THEN -1 ELSE 1) * (10 * id + a)
                   /\ \A a \in 1..r.nfx : r.fx[a][i] = 1000 * id + a )
             bad == {i \in 1..(ext[1] * ext[2] * ext[3]) : Bad(i)}
             users == {b \in 0..2*r.ndim-1 : r.bc[b+1] = "UserDefined" /\ r.atborder[DirOf(b)][(b % 2) + 1]}
         IN /\ ~r.refused \/ Say("refused", r.order)
            /\ Len(r.rho) = ext[1] * ext[2] * ext[3] \/ Say("array size", Len(r.rho))
            /\ bad = {} \/ LET i == CHOOSE i \in bad : TRUE IN Say("value", <<r.what, r.bc, r.order, At(i - 1), Final(S, At(i - 1)), r.rho[i], [a \in 1..r.ndim |-> r.rhou[a][i]], r.E[i], [a \in 1..r.nfx |-> r.fx[a][i]]>>)
            (* user code ran for each user-defined border this block lies at, and for no other *)
            /\ ({r.user[i] : i \in 1..Len(r.user)} = users) \/ Say("user code", <<r.user, users>>)
=============================================================================
