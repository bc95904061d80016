---------------------------- MODULE ParamsModel ----------------------------
(* A file is written setting by setting; the parameters it gives. Every     *)
(* file of at most MaxSet settings is one behaviour, printed for replay.    *)
EXTENDS Params, Json, FiniteSets
CONSTANTS MaxSet, Vals
VARIABLE file         \* row -> value written (0: absent)
Init == file = [r \in Rows |-> 0]
Count == Cardinality({r \in Rows : file[r] # 0})
Next == /\ Count < MaxSet
        /\ \E r \in Rows, v \in Vals : file[r] = 0 /\ file' = [file EXCEPT ![r] = v]
Spec == Init /\ [][Next]_file
(* the parameter of row r *)
ParamOf(f, r) == IF f[r] # 0 THEN <<"written", f[r]>>
                 ELSE IF Table[r].d = "first" THEN <<"first", f[21], f[26]>>
                 ELSE <<"default", Table[r].d>>
(* writing one setting changes the parameter it names, and the derived default, and no other *)
OnlyNamed ==
    [][\A r \in Rows : file'[r] = file[r] => (ParamOf(file', r) = ParamOf(file, r) \/ (Table[r].d = "first" /\ file[r] = 0))]_file
(* no two parameters share a setting, no two settings a parameter *)
OneToOne == \A r \in Rows, q \in Rows : r # q => Table[r].f # Table[q].f /\ <<Table[r].s, Table[r].k>> # <<Table[q].s, Table[q].k>>
First == Table[21].f = "t_ini" /\ Table[26].f = "time_output_frequency" /\ Table[27].d = "first"
Emit == PrintT(<<"CASE", ToJson([r \in {x \in Rows : file[x] # 0} |-> file[r]])>>)
=============================================================================
