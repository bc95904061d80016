----------------------------- MODULE TypedModel -----------------------------
(* Design check of TypedValue: all texts up to a length over an alphabet.   *)
EXTENDS TypedValue
CONSTANTS Alphabet, MaxLen
VARIABLE text
Init == text = <<>>
Next == Len(text) < MaxLen /\ \E ch \in Alphabet : text' = Append(text, ch)
Spec == Init /\ [][Next]_text

(* a decimal integer not followed by a point or an exponent reads the same as a real *)
IntegersAreReals ==
    LET i == IntegerOf(text)
        r == RealOf(text)
        s == LTrim(text)
        stop == FirstNotIn(s, 1 + SignLen(s), Digits)
    IN (i.kind = "value" /\ r.kind = "value" /\ At(s, stop) \notin {Dot, 101, 69}) => REq(i.v, r.v)
(* whatever reads as an integer reads as a real (or a hexadecimal real) *)
NoLoss == IntegerOf(text).kind = "value" => RealOf(text).kind \in {"value", "any"}
(* a sign in front negates *)
SignNegates ==
    (text # <<>> /\ text[1] \in Digits /\ IntegerOf(text).kind = "value") =>
        REq(IntegerOf(<<Minus>> \o text).v, RNeg(IntegerOf(text).v))
(* what follows a number does not change it unless it continues the number *)
TrailingIgnored ==
    IntegerOf(text).kind = "value" => REq(IntegerOf(text \o <<32, 35>>).v, IntegerOf(text).v)
(* only one of the boolean words *)
BooleanExclusive == ~(LowerSeq(text) \in True3 /\ LowerSeq(text) \in False3)
=============================================================================
