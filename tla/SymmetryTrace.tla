--------------------------- MODULE SymmetryTrace ---------------------------
(* Pairs of recorded runs of which the second starts from an image of the   *)
(* first: directions permuted (perm: where each direction of the base run    *)
(* goes), directions mirrored (flip), or directions added along which        *)
(* nothing varies. Every output of the image run is the image of the         *)
(* corresponding output of the base run. Uniform flows are their own image.  *)
EXTENDS RealArith, Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE
Tol == RPow10(-9)
Index(n, p) == 1 + p[1] + n[1] * (p[2] + n[2] * p[3])
Places(n) == (0..n[1]-1) \X (0..n[2]-1) \X (0..n[3]-1)
Flips(r) == {r.flip[k] : k \in DOMAIN r.flip}
(* the cell of the base run a cell of the image run stands for *)
Source(r, p) == [d \in 1..3 |-> IF d > r.base.ndim THEN 0 ELSE IF d \in Flips(r) THEN r.base.n[d] - 1 - p[r.perm[d]] ELSE p[r.perm[d]]]
Sign(r, d, v) == IF d \in Flips(r) THEN RNeg(v) ELSE v
Near(a, b, scale) == RClose(a, b, 0, RMul(Tol, scale))
SameCell(r, a, b, p, z) ==
    LET i == Index(r.image.n, p) j == Index(r.base.n, Source(r, p)) IN
    /\ Near(b.rho[i], a.rho[j], z.rho) \/ Say("density", <<r.what, p, b.rho[i], a.rho[j]>>)
    /\ Near(b.P[i], a.P[j], z.P) \/ Say("pressure", <<r.what, p, b.P[i], a.P[j]>>)
    /\ Near(b.E[i], a.E[j], z.E) \/ Say("energy", <<r.what, p, b.E[i], a.E[j]>>)
    /\ \A d \in 1..r.base.ndim : Near(b.u[r.perm[d]][i], Sign(r, d, a.u[d][j]), z.u) \/ Say("velocity", <<r.what, p, d, b.u[r.perm[d]][i], a.u[d][j]>>)
    /\ \A e \in 1..r.image.ndim : (\A d \in 1..r.base.ndim : r.perm[d] # e) => Near(b.u[e][i], 0, z.u) \/ Say("velocity across", <<r.what, p, e, b.u[e][i]>>)
    /\ Len(a.fx) = Len(b.fx) \/ Say("scalars", <<r.what>>)
    /\ \A f \in DOMAIN a.fx : Near(b.fx[f][i], a.fx[f][j], 1) \/ Say("scalar", <<r.what, p, f, b.fx[f][i], a.fx[f][j]>>)
Conforms ==
    LET r == Cases[c] IN
    /\ Len(r.base.outs) = Len(r.image.outs) \/ Say("outputs", <<r.what, Len(r.base.outs), Len(r.image.outs)>>)
    /\ \A k \in DOMAIN r.base.dts : RClose(r.image.dts[k], r.base.dts[k], Tol, 0) \/ Say("time step", <<r.what, k, r.image.dts[k], r.base.dts[k]>>)
    /\ \A o \in DOMAIN r.base.outs : \A p \in Places(r.image.n) : SameCell(r, r.base.outs[o], r.image.outs[o], p, r.scale)
=============================================================================
