------------------------------ MODULE Limiters ------------------------------
(***************************************************************************)
(* Slope limiters (slopes a and b on the two sides of a cell) and the      *)
(* linear reconstruction of face values.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, RealArith, TLC
LimiterNames == {"Constant", "VanLeer", "Minmod", "VanAlbada"}
SameSign(a, b) == (RLt(0, a) /\ RLt(0, b)) \/ (RLt(a, 0) /\ RLt(b, 0))
Smaller(a, b) == IF RLe(RAbs(a), RAbs(b)) THEN a ELSE b
(* harmonic mean; smaller of the two; and Van Albada's average *)
Slope(name, a, b) ==
    IF name = "Constant" \/ ~SameSign(a, b) THEN R(0)
    ELSE CASE name = "VanLeer" -> RDiv(RMul(2, RMul(a, b)), RAdd(a, b))
           [] name = "Minmod" -> Smaller(a, b)
           [] OTHER -> RDiv(RMul(RMul(a, b), RAdd(a, b)), RAdd(RMul(a, a), RMul(b, b)))
(* values v0, v1, v2 of three neighbouring cells of widths h0, h1, h2 *)
CellSlope(name, v0, v1, v2, h0, h1, h2) ==
    Slope(name, TLCEval(RDiv(RSub(v2, v1), RDiv(RAdd(h1, h2), 2))), TLCEval(RDiv(RSub(v1, v0), RDiv(RAdd(h0, h1), 2))))
Face(side, v1, h1, s) == IF side = 0 THEN RSub(v1, RMul(RDiv(h1, 2), s)) ELSE RAdd(v1, RMul(RDiv(h1, 2), s))
=============================================================================
