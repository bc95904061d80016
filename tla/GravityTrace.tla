---------------------------- MODULE GravityTrace ----------------------------
(* Gravity fields recorded from the real program, block by block, against    *)
(* the field of the whole domain.                                            *)
EXTENDS Gravity, Geometry, Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE
Gh(r, d) == IF d <= r.ndim THEN r.ng ELSE 0
WG(r) == [d \in 1..3 |-> r.n[d] + 2 * Gh(r, d)]
(* density averaged over the interior columns of shell i (from 1, ghosts included) *)
Shell(r, w, i) ==
    LET col(q) == <<i - 1, (q % r.n[2]) + Gh(r, 2), (q \div r.n[2]) + Gh(r, 3)>>
        vol(p) == Volume(r.geom, r.ndim, [d \in 1..3 |-> R(r.x[d][p[d] + 1])], [d \in 1..3 |-> R(r.x[d][p[d] + 2])])
        rho(p) == r.rho[p[1] + w[1] * (p[2] + w[2] * p[3]) + 1]
        m == r.n[2] * r.n[3]
    IN RDiv(RSumSeq([q \in 1..m |-> RMul(vol(col(q - 1)), rho(col(q - 1)))]), RSumSeq([q \in 1..m |-> vol(col(q - 1))]))
Shells(r) == LET w == WG(r) IN
    IF r.field.kind = "Internal_mass" THEN TLCEval([i \in 1..w[1] |-> IF i <= r.ng THEN R(0) ELSE TLCEval(Shell(r, w, i))]) ELSE <<>>
BlockOk(r, b, felt) ==
    LET lw == [d \in 1..3 |-> b.max[d] - b.min[d] + 2 * b.nghost[d]]
        At(d, i, j, k) == b.g[d][i + lw[1] * (j + lw[2] * k) + 1]
    IN \A d \in 1..r.ndim : \A i \in 0..lw[1]-1 : \A j \in 0..lw[2]-1 : \A k \in 0..lw[3]-1 :
          RClose(At(d, i, j, k), felt[d][i + b.min[1] + 1], RPow10(-11), 0) \/ Say("gravity", <<r.job, d, i, j, k, At(d, i, j, k), RText(felt[d][i + b.min[1] + 1])>>)
Conforms ==
    LET r == Cases[c] IN
    IF r.refused THEN (r.field.kind = "Internal_mass" /\ r.p[1] > 1) \/ Say("refused", <<r.job, r.error>>)
    ELSE /\ ~(r.field.kind = "Internal_mass" /\ r.p[1] > 1) \/ Say("incomplete enclosed mass accepted", r.job)
         /\ LET sh == Shells(r)
                w == WG(r)
                felt == TLCEval([d \in 1..r.ndim |-> TLCEval([i \in 1..w[1] |-> TLCEval(Felt(r.field, r.x[1], sh, r.ng, i, d))])])
            IN \A b \in DOMAIN r.blocks : BlockOk(r, r.blocks[b], felt)
=============================================================================
