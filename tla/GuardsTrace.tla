---------------------------- MODULE GuardsTrace ----------------------------
(* Recorded runs of scripts: the specification runs the same script letter  *)
(* by letter.                                                               *)
EXTENDS Guards, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pos, run
Init == c \in 1..Len(Cases) /\ pos = 1 /\ run = Start
Next == /\ pos <= Len(Cases[c].script) /\ run.end = "running"
        /\ run' = Do(run, Cases[c].script[pos]) /\ pos' = pos + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, pos, run>>
Done == pos > Len(Cases[c].script) \/ run.end # "running"
Conforms == Done =>
    LET e == IF run.end = "running" THEN Finish(run, "ok") ELSE run
        r == Cases[c]
    IN (r.events = e.events /\ r.end = e.end) \/ (PrintT(<<"REJECTED", c, e, r>>) /\ FALSE)
=============================================================================
