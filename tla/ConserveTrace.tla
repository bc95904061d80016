--------------------------- MODULE ConserveTrace ---------------------------
(* Totals over the domain of recorded outputs: what a run must keep, it      *)
(* keeps. A record has geom, ndim, n, ng, x (faces with ghosts), outs (the   *)
(* states of the outputs) and keep, a set among "mass", "energy", "scalars"  *)
(* and "momentum1".."momentum3".                                             *)
EXTENDS Geometry, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE
Gh(r, d) == IF d <= r.ndim THEN r.ng ELSE 0
CellOf(r, q) == <<(q - 1) % r.n[1], ((q - 1) \div r.n[1]) % r.n[2], (q - 1) \div (r.n[1] * r.n[2])>>
Vol(r, q) == LET p == CellOf(r, q) IN Volume(r.geom, r.ndim, TLCEval([d \in 1..3 |-> R(r.x[d][p[d] + Gh(r, d) + 1])]), TLCEval([d \in 1..3 |-> R(r.x[d][p[d] + Gh(r, d) + 2])]))
Tol == RPow10(-12)
Total(v, f) == RSumSeq([q \in DOMAIN v |-> RMul(v[q], f[q])])
Same(r, what, a, b, scale) == RClose(a, b, 0, RMul(Tol, scale)) \/ Say(what, <<r.what, RText(a), RText(b)>>)
Keeps(r, k) == \E i \in DOMAIN r.keep : r.keep[i] = k
Conforms ==
    LET r == Cases[c]
        m == r.n[1] * r.n[2] * r.n[3]
        v == TLCEval([q \in 1..m |-> TLCEval(Vol(r, q))])
        o(k) == r.outs[k]
        mass(k) == Total(v, o(k).rho)
        energy(k) == Total(v, o(k).E)
        scalar(k, f) == Total(v, TLCEval([q \in 1..m |-> RMul(o(k).rho[q], o(k).fx[f][q])]))
        momentum(k, d) == Total(v, TLCEval([q \in 1..m |-> RMul(o(k).rho[q], o(k).u[d][q])]))
        m0 == TLCEval(mass(1))
        e0 == TLCEval(energy(1))
        \* an upper bound for the momentum: sqrt(2 mass energy)
        p0 == RSqrt(RMul(2, RMul(m0, e0)))
    IN /\ Keeps(r, "mass") => \A k \in DOMAIN r.outs : Same(r, "mass", mass(k), m0, m0)
       /\ Keeps(r, "energy") => \A k \in DOMAIN r.outs : Same(r, "energy", energy(k), e0, e0)
       /\ Keeps(r, "scalars") => \A f \in DOMAIN o(1).fx : LET s0 == TLCEval(scalar(1, f)) IN \A k \in DOMAIN r.outs : Same(r, "scalar mass", scalar(k, f), s0, m0)
       /\ \A d \in 1..r.ndim : Keeps(r, <<"momentum1", "momentum2", "momentum3">>[d]) => LET q0 == TLCEval(momentum(1, d)) IN \A k \in DOMAIN r.outs : Same(r, "momentum", momentum(k, d), q0, p0)
=============================================================================
