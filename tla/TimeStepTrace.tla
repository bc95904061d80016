--------------------------- MODULE TimeStepTrace ---------------------------
(* Recorded time steps and domain integrals of the real program.             *)
EXTENDS Scheme, Json, IOUtils
TS == INSTANCE TimeStep
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE

(* calls of the function on the whole domain enlarged by some layers *)
BoxCells(r) == [d \in 1..3 |-> r.n[d] + 2 * (IF d <= r.ndim THEN r.layers ELSE 0)]
BoxCell(r, q) == LET b == BoxCells(r) L(d) == IF d <= r.ndim THEN r.layers ELSE 0 IN <<((q - 1) % b[1]) - L(1), (((q - 1) \div b[1]) % b[2]) - L(2), ((q - 1) \div (b[1] * b[2])) - L(3)>>
FieldRate(r, w, q) ==
    LET p == BoxCell(r, q) i == Num(r, w, p) IN
    TS!SignalRate(r.geom, r.ndim, Gas(r), r.rho[i], [d \in 1..r.ndim |-> r.u[d][i]], r.P[i], TLCEval(Lo(r, p)), TLCEval(Hi(r, p)))
Called(r) ==
    LET w == WG(r)
        b == BoxCells(r)
        m == b[1] * b[2] * b[3]
        want == TLCEval(RDiv(1, TS!Largest([q \in 1..m |-> TLCEval(FieldRate(r, w, q))], m)))
    IN \A k \in DOMAIN r.dt : (RClose(r.dt[k], want, RPow10(-11), 0) /\ r.dt[k] = r.dt[1]) \/ Say("time step", <<r.job, k, r.dt[k], RText(want)>>)

(* integral over the cells every process owns *)
Integral(r) ==
    LET w == WG(r)
        m == r.n[1] * r.n[2] * r.n[3]
        cell(q) == <<(q - 1) % r.n[1], ((q - 1) \div r.n[1]) % r.n[2], (q - 1) \div (r.n[1] * r.n[2])>>
        part(q) == RMul(Volume(r.geom, r.ndim, TLCEval(Lo(r, cell(q))), TLCEval(Hi(r, cell(q)))), r.f[Num(r, w, cell(q))])
        want == TLCEval(RSumSeq([q \in 1..m |-> TLCEval(part(q))]))
        size == TLCEval(RSumSeq([q \in 1..m |-> TLCEval(RAbs(part(q)))]))
    IN \A k \in DOMAIN r.sum : RClose(r.sum[k], want, 0, RMul(RPow10(-11), size)) \/ Say("integral", <<r.job, k, r.sum[k], RText(want)>>)

(* steps of whole runs: ghost cells may or may not be looked at *)
RunRate(r, w, prim, q) == LET p == CellAt(r, w, q) IN TS!SignalRate(r.geom, r.ndim, Gas(r), prim[q].rho, prim[q].u, prim[q].P, TLCEval(Lo(r, p)), TLCEval(Hi(r, p)))
Taken(r) ==
    LET w == TLCEval(WG(r))
        S == Borders(r)
        m == w[1] * w[2] * w[3]
        prim == TLCEval([q \in 1..m |-> Primitive(r, w, S, q)])
        rate == TLCEval([q \in 1..m |-> TLCEval(RunRate(r, w, prim, q))])
        inner == TLCEval([i \in 1..(r.n[1] * r.n[2] * r.n[3]) |-> rate[Num(r, w, <<(i - 1) % r.n[1], ((i - 1) \div r.n[1]) % r.n[2], (i - 1) \div (r.n[1] * r.n[2])>>)]])
        longest == RDiv(r.cfl, TS!Largest(inner, Len(inner)))
        shortest == RDiv(r.cfl, TS!Largest(rate, m))
        one == RPow10(-10)
    IN \A k \in DOMAIN r.dts : (RLe(r.dts[k], RMul(longest, RAdd(1, one))) /\ RLe(RMul(shortest, RSub(1, one)), r.dts[k]) /\ r.dts[k] = r.dts[1]) \/ Say("step of the run", <<r.what, k, r.dts[k], RText(longest), RText(shortest)>>)
Conforms == LET r == Cases[c] IN CASE r.kind = "call" -> Called(r) [] r.kind = "integral" -> Integral(r) [] OTHER -> Taken(r)
=============================================================================
