----------------------------- MODULE TypedTrace -----------------------------
(* Conformance of recorded lookups: each case holds the text stored under a *)
(* name and the answers of every typed lookup for two different defaults.   *)
EXTENDS TypedValue, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c, k
Types == <<"int", "long", "llong", "uint", "ulong", "ullong", "float", "double", "ldouble", "bool", "text">>
Init == c \in 1..Len(Cases) /\ k = 1
Next == k < Len(Types) /\ k' = k + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, k>>

IsDefault(type, res, d) == res.ok /\ (IF type \in {"bool", "text"} THEN res.v = d ELSE REq(R(res.v), R(d)))
Answer(type, text, res) ==
    CASE type \in {"int", "long", "llong", "uint", "ulong", "ullong"} -> IntegerConforms(type, text, res)
      [] type \in {"float", "double", "ldouble"} -> RealConforms(type, text, res)
      [] type = "bool" -> (IF BooleanOf(text) = "error" THEN ~res.ok ELSE res.ok /\ res.v = BooleanOf(text))
      [] OTHER -> TRUE
Same(text, got) == LowerSeq(text) = LowerSeq(got) /\ text = got
Conforms ==
    LET r == Cases[c]
        type == Types[k]
        a == r.res[k]
        ok == IF type = "text"
              THEN (IF r.present THEN a.a.codes = r.text /\ a.b.codes = r.text ELSE a.a.v = a.da /\ a.b.v = a.db)
              ELSE IF ~r.present \/ r.text = <<>> THEN IsDefault(type, a.a, a.da) /\ IsDefault(type, a.b, a.db)
              ELSE Answer(type, r.text, a.a) /\ Answer(type, r.text, a.b)
    IN ok \/ (PrintT(<<"REJECTED", c, type, r.shown, a>>) /\ FALSE)
=============================================================================
