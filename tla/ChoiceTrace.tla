---------------------------- MODULE ChoiceTrace ----------------------------
(* Recorded starts: for each kind of choice the name that was asked for      *)
(* (asked.border holds the names of all borders), whether the run went       *)
(* ahead, how many files it wrote, how many steps it took and which of the   *)
(* unusable names its error message mentions. Runs with two grids at hand    *)
(* tell which one they used.                                                 *)
EXTENDS Choices, RealArith, Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE
ToSet(s) == {s[i] : i \in DOMAIN s}
Unusable(r) == {k \in Kinds \ {"border"} : ~Usable(k, r.asked[k])} \cup (IF \A b \in DOMAIN r.asked.border : Usable("border", r.asked.border[b]) THEN {} ELSE {"border"})
BadNames(r) == {r.asked[k] : k \in Unusable(r) \ {"border"}} \cup {b \in ToSet(r.asked.border) : ~Usable("border", b)}
GridOk(r) == \A d \in 1..r.ndim : LET n == Len(r.x[d]) IN
    IF r.asked.grid = "UserDefined" THEN \A i \in 1..n : RClose(r.x[d][i], r.file[d][i], RPow10(-14), 0) \/ Say("grid", <<r.what, d, i>>)
    ELSE \A i \in 1..n : RClose(r.x[d][i], RAdd(r.ends[d][1], RMul(i - 1 - r.ng, RDiv(RSub(r.ends[d][2], r.ends[d][1]), r.n[d]))), RPow10(-12), RMul(RPow10(-12), RSub(r.ends[d][2], r.ends[d][1]))) \/ Say("grid", <<r.what, d, i>>)
Conforms ==
    LET r == Cases[c] IN
    IF Unusable(r) = {} THEN /\ (r.rc = "0" /\ r.steps > 0) \/ Say("refused", <<r.what, r.err>>)
                             /\ GridOk(r)
                             /\ (\E k \in DOMAIN r.asked.border : r.asked.border[k] = "UserDefined") <=> (Len(r.user) > 0)
                             /\ ToSet(r.user) = {k - 1 : k \in {k \in DOMAIN r.asked.border : r.asked.border[k] = "UserDefined"}} \/ Say("user borders", <<r.what, r.user>>)
                             /\ (r.logged = (r.asked.user_step = "UserDefined")) \/ Say("user step", <<r.what>>)
    ELSE /\ r.rc # "0" \/ Say("not refused", r.what)
         /\ (r.files = 0 /\ r.steps = 0) \/ Say("ran before it was refused", <<r.what, r.files, r.steps>>)
         /\ (BadNames(r) = {""} \/ ToSet(r.mentions) \cap BadNames(r) # {}) \/ Say("error names no offending choice", <<r.what, r.err>>)
=============================================================================
