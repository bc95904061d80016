---------------------------- MODULE ParamsTrace ----------------------------
(* Recorded parameter objects: each case holds the settings of the file and *)
(* the fields of the object (or the refusal).                               *)
EXTENDS Params, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c

Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE
(* the text of a row in case r: <<>> when absent *)
TextOf(r, row) ==
    LET S == {i \in 1..Len(r.kv) : r.kv[i].s = row.s /\ r.kv[i].k = row.k} IN
    IF S = {} THEN <<>> ELSE r.kv[CHOOSE i \in S : TRUE].v
Bad(row, text) ==
    /\ text # <<>>
    /\ CASE row.t = "int" -> LET x == IntegerOf(text) IN x.kind = "error" \/ ~(RLe(R("-2147483648"), x.v) /\ RLe(x.v, R("2147483647")))
         [] row.t = "real" -> LET x == RealOf(text) IN x.kind = "error" \/ (x.kind = "value" /\ RLt(R("1.7976931348623157e308"), RAbs(x.v)))
         [] row.t = "bool" -> BooleanOf(text) = "error"
         [] OTHER -> FALSE
Present(r, row) == \E i \in 1..Len(r.kv) : r.kv[i].s = row.s /\ r.kv[i].k = row.k
FieldOk(r, row) ==
    LET text == TextOf(r, row)
        got == r.res.f[row.f]
    IN IF text = <<>> /\ ~(row.t = "text" /\ Present(r, row))
       THEN CASE row.d = "first" -> RClose(R(got.v), RAdd(R(r.res.f.t_ini.v), R(r.res.f.time_output_frequency.v)), R("3e-16"), R(0))
              [] row.d = "fivethirds" -> RClose(R(got.v), RDiv(R(5), R(3)), R("3e-16"), R(0))
              [] row.t = "text" -> got.s = row.d
              [] row.t = "bool" -> got.v = row.d
              [] OTHER -> RClose(R(got.v), R(row.d), R("3e-16"), R(0))
       ELSE CASE row.t = "text" -> got.c = text
              [] row.t = "bool" -> got.v = BooleanOf(text)
              [] row.t = "int" -> IntegerConforms("int", text, [ok |-> TRUE, v |-> got.v])
              [] OTHER -> RealConforms("double", text, [ok |-> TRUE, v |-> got.v])
Conforms ==
    LET r == Cases[c]
        bad == {i \in Rows : Bad(Table[i], TextOf(r, Table[i]))}
    IN IF bad # {} THEN ~r.res.ok \/ Say("unusable value accepted", {Table[i].k : i \in bad})
       ELSE /\ r.res.ok \/ Say("refused", r.res)
            /\ \A i \in Rows : FieldOk(r, Table[i]) \/ Say("field", <<Table[i], r.res.f[Table[i].f]>>)
            /\ r.res.f["reader"].s = r.probe \/ Say("reader kept for the setup", r.res.f["reader"])
=============================================================================
