----------------------------- MODULE TypedValue -----------------------------
(***************************************************************************)
(* The value written in a setting's text (P02). Text is a sequence of byte *)
(* codes. A reading is a record [kind, v]:                                 *)
(*   "value"  the real number v                                            *)
(*   "nan"/"inf"/"-inf"                                                    *)
(*   "error"  the text starts with no number                               *)
(*   "any"    notation the documentation does not define                   *)
(***************************************************************************)
EXTENDS IniGrammar, RealArith, TLC

Digits == 48..57
Minus == 45   Plus == 43   Dot == 46
HexDigits == Digits \cup (97..102) \cup (65..70)
DigitVal(c) == IF c <= 57 THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0

RECURSIVE Fold(_, _, _, _, _)
(* the number written in base b by s[i..j-1], started from acc *)
Fold(s, i, j, b, acc) == IF i >= j THEN acc ELSE Fold(s, i + 1, j, b, TLCEval(RAdd(RMul(acc, R(b)), R(DigitVal(s[i])))))

SignLen(s) == IF At(s, 1) \in {Minus, Plus} THEN 1 ELSE 0
Signed(s, v) == IF At(s, 1) = Minus THEN RNeg(v) ELSE v

Value(v) == [kind |-> "value", v |-> v]
Error == [kind |-> "error", v |-> 0]

(* integers: decimal, or hexadecimal after 0x *)
IsHexPrefix(s, i) == At(s, i) = 48 /\ At(s, i + 1) \in {120, 88}
IntegerOf(text) ==
    LET s == LTrim(text)
        i == 1 + SignLen(s)
    IN IF IsHexPrefix(s, i)
       THEN Value(Signed(s, Fold(s, i + 2, FirstNotIn(s, i + 2, HexDigits), 16, R(0))))
       ELSE LET e == FirstNotIn(s, i, Digits) IN
            IF e = i THEN Error ELSE Value(Signed(s, Fold(s, i, e, 10, R(0))))

(* reals: digits with an optional point and exponent, inf, infinity, nan *)
Prefix(s, i, w) == Len(s) >= i + Len(w) - 1 /\ LowerSeq(SubSeq(s, i, i + Len(w) - 1)) = w
WInf == <<105, 110, 102>>
WNan == <<110, 97, 110>>
RECURSIVE SmallInt(_, _, _, _)
SmallInt(s, i, j, acc) == IF i >= j THEN acc ELSE IF acc > 100000 THEN acc ELSE SmallInt(s, i + 1, j, acc * 10 + DigitVal(s[i]))
RealOf(text) ==
    LET s == LTrim(text)
        i == 1 + SignLen(s)
        e1 == FirstNotIn(s, i, Digits)
        f0 == IF At(s, e1) = Dot THEN e1 + 1 ELSE e1
        e2 == IF f0 > e1 THEN FirstNotIn(s, f0, Digits) ELSE e1
        nint == e1 - i
        nfrac == IF f0 > e1 THEN e2 - f0 ELSE 0
        mant == Fold(s, f0, e2, 10, Fold(s, i, e1, 10, R(0)))
        hasExp == At(s, e2) \in {101, 69} /\ (At(s, e2 + 1) \in Digits \/ (At(s, e2 + 1) \in {Plus, Minus} /\ At(s, e2 + 2) \in Digits))
        x0 == e2 + 1 + (IF At(s, e2 + 1) \in {Plus, Minus} THEN 1 ELSE 0)
        xe == SmallInt(s, x0, FirstNotIn(s, x0, Digits), 0)
        expo == IF ~hasExp THEN 0 ELSE IF At(s, e2 + 1) = Minus THEN 0 - xe ELSE xe
    IN IF IsHexPrefix(s, i) THEN [kind |-> "any", v |-> 0]
       ELSE IF Prefix(s, i, WInf) THEN [kind |-> IF At(s, 1) = Minus THEN "-inf" ELSE "inf", v |-> 0]
       ELSE IF Prefix(s, i, WNan) THEN [kind |-> "nan", v |-> 0]
       ELSE IF nint + nfrac = 0 THEN Error
       ELSE Value(Signed(s, RMul(mant, RPow10(expo - nfrac))))

Word(w) == w
True3 == {<<116, 114, 117, 101>>, <<121, 101, 115>>, <<111, 110>>, <<49>>}
False3 == {<<102, 97, 108, 115, 101>>, <<110, 111>>, <<111, 102, 102>>, <<48>>}
BooleanOf(text) == IF LowerSeq(text) \in True3 THEN "true" ELSE IF LowerSeq(text) \in False3 THEN "false" ELSE "error"

(* ranges of the types *)
Range(type) ==
    CASE type = "int" -> <<R("-2147483648"), R("2147483647")>>
      [] type \in {"long", "llong"} -> <<R("-9223372036854775808"), R("9223372036854775807")>>
      [] type = "uint" -> <<R(0), R("4294967295")>>
      [] type \in {"ulong", "ullong"} -> <<R(0), R("18446744073709551615")>>
Negative(text) == At(LTrim(text), 1) = Minus

(* what a lookup of an integer may answer: [ok, v] *)
IntegerConforms(type, text, res) ==
    LET x == IntegerOf(text) IN
    IF x.kind = "error" THEN ~res.ok
    ELSE IF type \in {"uint", "ulong", "ullong"} /\ Negative(text) /\ REq(x.v, R(0)) THEN TRUE
    ELSE IF RLe(Range(type)[1], x.v) /\ RLe(x.v, Range(type)[2]) THEN res.ok /\ REq(R(res.v), x.v)
    ELSE ~res.ok

MaxOf(type) == CASE type = "float" -> R("3.4028235e38") [] type = "double" -> R("1.7976931348623157e308") [] type = "ldouble" -> R("1.18973149535723176502e4932")
MinOf(type) == CASE type = "float" -> R("1.17549436e-38") [] type = "double" -> R("2.2250738585072014e-308") [] type = "ldouble" -> R("3.36210314311209350626e-4932")
TolOf(type) == CASE type = "float" -> R("1.2e-7") [] type = "double" -> R("3e-16") [] type = "ldouble" -> R("2e-19")
RealConforms(type, text, res) ==
    LET x == RealOf(text)
        a == RAbs(x.v)
    IN CASE x.kind = "any" -> TRUE
         [] x.kind = "error" -> ~res.ok
         [] x.kind \in {"inf", "-inf", "nan"} -> res.ok /\ res.v = x.kind
         [] x.kind = "value" ->
              IF REq(x.v, R(0)) THEN res.ok /\ REq(R(res.v), R(0))
              ELSE IF RLt(RMul(MaxOf(type), R("1.0000001")), a) THEN ~res.ok
              ELSE IF RLt(MaxOf(type), a) THEN TRUE
              ELSE IF RLe(RMul(MinOf(type), R("1.0000001")), a) THEN res.ok /\ RClose(R(res.v), x.v, TolOf(type), R(0))
              ELSE ~res.ok \/ RLe(RAbs(RSub(R(res.v), x.v)), MinOf(type))
=============================================================================
