---------------------------- MODULE GuardsModel ----------------------------
(* Every script up to a length: each valid handle is closed exactly once,   *)
(* by its own function, in reverse order, however the run ends.             *)
EXTENDS Guards, FiniteSets, Json
CONSTANTS MaxLen
VARIABLES script, run
Init == script = <<>> /\ run = Start
Next == /\ Len(script) < MaxLen /\ run.end = "running"
        /\ \E l \in {"o", "b", "c", "z", "n", "f", "t", "e"} : script' = Append(script, l) /\ run' = Do(run, l)
Spec == Init /\ [][Next]_<<script, run>>
Ended == IF run.end = "running" THEN Finish(run, "ok") ELSE run
Evs == Ended.events
Got == {i \in 1..Len(Evs) : Evs[i][1] = "got"}
Closed == {i \in 1..Len(Evs) : Evs[i][1] # "got"}
EachOnce == /\ Cardinality(Got) = Cardinality(Closed)
            /\ \A i \in Got : LET id == Evs[i][2] IN
                  Cardinality({j \in Got : Evs[j][2] = id}) = Cardinality({j \in Closed : Evs[j][2] = id})
Reverse == \A i, j \in Got : (i < j /\ Evs[i][2] # Evs[j][2] /\ Evs[i][2] # 0 /\ Evs[j][2] # 0) =>
             LET ci == CHOOSE k \in Closed : Evs[k][2] = Evs[i][2]
                 cj == CHOOSE k \in Closed : Evs[k][2] = Evs[j][2]
             IN cj < ci \/ ci < j
NothingBeforeItExists == \A k \in Closed : \E i \in Got : i < k /\ Evs[i][2] = Evs[k][2]
Emit == PrintT(<<"CASE", ToJson(script)>>)
=============================================================================
