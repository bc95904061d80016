----------------------------- MODULE RealArith -----------------------------
(***************************************************************************)
(* Real arithmetic for TLC. A real is an opaque value built by R(_) from   *)
(* an integer or from a decimal literal given as a string (the way the     *)
(* harness writes doubles: 17 significant digits, exact round trip). The   *)
(* operators are evaluated by RealArith.java with 40 significant decimal   *)
(* digits, so the specification's arithmetic is, for every purpose here,   *)
(* the arithmetic of the real numbers: the implementation's doubles are    *)
(* compared with it through an explicit tolerance.                         *)
(*                                                                         *)
(* Non-finite values behave as in IEEE 754 ("nan", "inf", "-inf").         *)
(***************************************************************************)
R(x) == CHOOSE r : r = x
RAdd(a, b) == CHOOSE r : TRUE
RSub(a, b) == CHOOSE r : TRUE
RMul(a, b) == CHOOSE r : TRUE
RDiv(a, b) == CHOOSE r : TRUE
RNeg(a) == CHOOSE r : TRUE
RAbs(a) == CHOOSE r : TRUE
RSqrt(a) == CHOOSE r : TRUE
RPow(a, b) == CHOOSE r : TRUE
RExp(a) == CHOOSE r : TRUE
RLog(a) == CHOOSE r : TRUE
RSin(a) == CHOOSE r : TRUE
RCos(a) == CHOOSE r : TRUE
RPi == CHOOSE r : TRUE
RMin(a, b) == CHOOSE r : TRUE
RMax(a, b) == CHOOSE r : TRUE
RLt(a, b) == CHOOSE r \in BOOLEAN : TRUE
RLe(a, b) == CHOOSE r \in BOOLEAN : TRUE
REq(a, b) == CHOOSE r \in BOOLEAN : TRUE
RIsNaN(a) == CHOOSE r \in BOOLEAN : TRUE
RIsFinite(a) == CHOOSE r \in BOOLEAN : TRUE
(* |a - b| <= atol + rtol * max(|a|, |b|), or both are the same non-finite *)
RClose(a, b, rtol, atol) == CHOOSE r \in BOOLEAN : TRUE
(* sum of a sequence of reals *)
RSumSeq(s) == CHOOSE r : TRUE
(* ten to the integer n *)
RPow10(n) == CHOOSE r : TRUE
(* decimal text of a real (for messages) *)
RText(a) == CHOOSE r : TRUE
=============================================================================
