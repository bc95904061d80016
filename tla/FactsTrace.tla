----------------------------- MODULE FactsTrace -----------------------------
(* Recorded answers: extents of datasets, integer conversions, summary      *)
(* lines.                                                                   *)
EXTENDS Guards, RealArith, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Range(t) ==
    CASE t = "int8" -> <<"-128", "127">> [] t = "uint8" -> <<"0", "255">>
      [] t = "int16" -> <<"-32768", "32767">> [] t = "uint16" -> <<"0", "65535">>
      [] t = "int32" -> <<"-2147483648", "2147483647">> [] t = "uint32" -> <<"0", "4294967295">>
      [] t = "int64" -> <<"-9223372036854775808", "9223372036854775807">> [] t = "uint64" -> <<"0", "18446744073709551615">>
ExtentOk(r) == r.result = (IF r.dataset /\ Accepted(r.actual, r.expected) THEN "accepted" ELSE "refused") /\ r.leaked = 0
ConversionOk(r) ==
    IF RLe(R(Range(r.to)[1]), R(r.x)) /\ RLe(R(r.x), R(Range(r.to)[2])) THEN r.res.ok /\ r.res.v = r.x ELSE ~r.res.ok
RECURSIVE Lines(_, _)
Lines(items, i) == IF i > Len(items) THEN <<>> ELSE SummaryLine(items[i].name, items[i].value) \o Lines(items, i + 1)
PrintOk(r) == r.out = Lines(r.items, 1)
(* the run summary names the values the run uses *)
SummaryOk(r) == \A k \in DOMAIN r.expect : (k \in DOMAIN r.lines /\ r.lines[k] = r.expect[k]) \/ (PrintT(<<"REJECTED", c, k, r.expect[k]>>) /\ FALSE)
Ok(r) == CASE r.kind = "extent" -> ExtentOk(r) [] r.kind = "int" -> ConversionOk(r) [] r.kind = "print" -> PrintOk(r) [] r.kind = "summary" -> SummaryOk(r)
Conforms == Ok(Cases[c]) \/ (PrintT(<<"REJECTED", c, Cases[c]>>) /\ FALSE)
=============================================================================
