----------------------------- MODULE OrderTrace ------------------------------
(* Runs of one input that differ only in the order of loop iterations: the    *)
(* same end, the same steps and files with the same content, bit by bit (up   *)
(* to rounding where a sum over cells acts on the flow).                      *)
EXTENDS RealArith, Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, Cases[c].what, what, x>>) /\ FALSE
Near(a, b, scale) == IF a = b THEN TRUE ELSE RClose(a, b, RPow10(-11), RMul(RPow10(-10), scale))
Exact == Cases[c].exact
SameValues(a, b, v, who) ==
    IF a.data = b.data THEN TRUE
    ELSE IF Exact THEN LET i == CHOOSE i \in DOMAIN a.data : a.data[i] # b.data[i] IN Say("value", <<who, v, i, a.data[i], b.data[i]>>)
    ELSE LET scale == IF v \in DOMAIN Cases[c].scale THEN Cases[c].scale[v] ELSE "0" IN \A i \in DOMAIN a.data : Near(b.data[i], a.data[i], scale) \/ Say("value", <<who, v, i, a.data[i], b.data[i]>>)
SameFile(a, b, who) ==
    /\ b.name = a.name \/ Say("name of file", <<who, a.name, b.name>>)
    /\ DOMAIN b.data = DOMAIN a.data \/ Say("datasets", <<who, DOMAIN a.data, DOMAIN b.data>>)
    /\ \A v \in DOMAIN a.data : b.data[v].shape = a.data[v].shape /\ SameValues(a.data[v], b.data[v], v, <<who, a.name>>)
SameStep(a, b) == IF Exact THEN a = b ELSE Near(a[1], b[1], "0") /\ Near(a[2], b[2], "0")
SameRun(a, b) ==
    /\ b.rc = a.rc \/ Say("end", <<b.who, a.rc, b.rc, b.err>>)
    /\ Len(b.files) = Len(a.files) \/ Say("number of files", <<b.who, Len(a.files), Len(b.files)>>)
    /\ Len(b.steps) = Len(a.steps) \/ Say("number of steps", <<b.who, Len(a.steps), Len(b.steps)>>)
    /\ \A k \in DOMAIN a.steps : SameStep(a.steps[k], b.steps[k]) \/ Say("step", <<b.who, k, a.steps[k], b.steps[k]>>)
    /\ \A k \in DOMAIN a.files : SameFile(a.files[k], b.files[k], b.who)
Conforms == LET r == Cases[c] IN \A k \in DOMAIN r.others : SameRun(r.forward, r.others[k])
=============================================================================
