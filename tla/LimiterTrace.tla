---------------------------- MODULE LimiterTrace ----------------------------
(* Recorded limiter calls and recorded face reconstructions on real grids.   *)
EXTENDS Limiters, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE
Neighbour(p, d, s) == [p EXCEPT ![d] = @ + s]
At(w, p) == p[1] + w[1] * (p[2] + w[2] * p[3]) + 1
LimOk(r) == LET x == Slope(r.name, R(r.a), R(r.b)) IN RClose(r.v, x, RPow10(-12), 0) \/ Say("slope", <<r.name, r.a, r.b, r.v, RText(x)>>)
(* b: what one process holds; its cell p is cell p + b.min of the whole box *)
RecOk(r, b) ==
    LET g == b.nghost
        wl == [d \in 1..3 |-> b.max[d] - b.min[d] + 2 * g[d]]
        wg == [d \in 1..3 |-> r.n[d] + 2 * g[d]]
        V(p) == R(r.field[At(wg, p)])
        H(d, i) == RSub(r.x[d][i + 2], r.x[d][i + 1])
        InRange(p) == \A d \in 1..3 : g[d] - r.layers * (IF g[d] > 0 THEN 1 ELSE 0) <= p[d] /\ p[d] < wl[d] - g[d] + r.layers * (IF g[d] > 0 THEN 1 ELSE 0)
    IN \A q \in 0..(wl[1] * wl[2] * wl[3] - 1) :
         LET p == <<q % wl[1], (q \div wl[1]) % wl[2], q \div (wl[1] * wl[2])>>
             o == <<p[1] + b.min[1], p[2] + b.min[2], p[3] + b.min[3]>>
         IN \A d \in 1..r.ndim : \A side \in {0, 1} :
              LET got == b.faces[2 * (d - 1) + side + 1][q + 1] IN
              IF ~InRange(p) THEN got = "7.5" \/ Say("cell outside the range touched", <<p, got>>)
              ELSE LET v0 == V(Neighbour(o, d, -1))
                       v1 == V(o)
                       v2 == V(Neighbour(o, d, 1))
                       s == TLCEval(CellSlope(r.name, v0, v1, v2, H(d, o[d] - 1), H(d, o[d]), H(d, o[d] + 1)))
                       want == Face(side, v1, H(d, o[d]), s)
                       big == RMax(RAbs(v0), RMax(RAbs(v1), RAbs(v2)))
                   IN RClose(got, want, 0, RMul(RPow10(-12), big)) \/ Say("face value", <<r.name, "cell", o, "direction", d, "side", side, got, RText(want)>>)
Conforms == LET r == Cases[c] IN
    CASE r.kind = "lim" -> LimOk(r)
      [] OTHER -> \A k \in 1..Len(r.blocks) : RecOk(r, r.blocks[k])
=============================================================================
