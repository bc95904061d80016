---------------------------- MODULE LimiterModel ----------------------------
(* What the limiter formulas guarantee, on a lattice of slopes, and what the *)
(* face values guarantee on a lattice of cell values and widths.             *)
EXTENDS Limiters
CONSTANTS Slopes, Values, Widths
VARIABLE s
Init == s \in [kind : {"slope"}, name : LimiterNames, a : 1..Len(Slopes), b : 1..Len(Slopes)]
          \cup [kind : {"face"}, name : LimiterNames, v : (1..Len(Values)) \X (1..Len(Values)) \X (1..Len(Values)), h : (1..Len(Widths)) \X (1..Len(Widths)) \X (1..Len(Widths))]
Next == FALSE /\ UNCHANGED s
Spec == Init /\ [][Next]_s
Near(x, y) == RClose(x, y, RPow10(-25), RPow10(-25))
Between(x, p, q) == RLe(RSub(RMin(p, q), RPow10(-25)), x) /\ RLe(x, RAdd(RMax(p, q), RPow10(-25)))
SlopeQualities ==
    s.kind = "slope" =>
    LET a == R(Slopes[s.a]) b == R(Slopes[s.b]) x == Slope(s.name, a, b) IN
    /\ ~SameSign(a, b) => REq(x, 0)
    /\ SameSign(a, b) /\ s.name # "Constant" => SameSign(a, x)
    /\ Near(x, Slope(s.name, b, a))
    /\ Near(RNeg(x), Slope(s.name, RNeg(a), RNeg(b)))
    /\ s.name # "Constant" => Near(a, Slope(s.name, a, a))
    \* never steeper than twice the smaller slope, nor than the steeper of the two
    /\ RLe(RAbs(x), RAdd(RMax(RAbs(a), RAbs(b)), RPow10(-25)))
    /\ SameSign(a, b) => RLe(RAbs(x), RAdd(RMul(2, RMin(RAbs(a), RAbs(b))), RPow10(-25)))
FaceQualities ==
    s.kind = "face" =>
    LET v == [i \in 1..3 |-> R(Values[s.v[i]])]
        h == [i \in 1..3 |-> R(Widths[s.h[i]])]
        x == TLCEval(CellSlope(s.name, v[1], v[2], v[3], h[1], h[2], h[3]))
        l == Face(0, v[2], h[2], x)
        r == Face(1, v[2], h[2], x)
        xc == <<RNeg(RDiv(RAdd(h[1], h[2]), 2)), R(0), RDiv(RAdd(h[2], h[3]), 2)>>
        lin(k) == RAdd(2, RMul(3, xc[k]))
        y == CellSlope(s.name, lin(1), lin(2), lin(3), h[1], h[2], h[3])
    IN /\ Near(RAdd(l, r), RMul(2, v[2]))
       \* on even cells, and whenever the own cell is not wider than its neighbours, no new extrema
       /\ s.h[2] <= s.h[1] /\ s.h[2] <= s.h[3] => Between(l, v[1], v[2]) /\ Between(r, v[2], v[3])
       /\ s.name # "Constant" => Near(y, 3)
       /\ s.name = "Constant" => REq(l, v[2]) /\ REq(r, v[2])
=============================================================================
