---------------------------- MODULE RestartTrace ----------------------------
(* Pairs of recorded runs: one that ran through and one restarted from one   *)
(* of its files. The outputs of the restarted run (later) are those of the   *)
(* first run after that file (rest): same iteration, time, number, grid and  *)
(* fields. When the first run was stopped between its scheduled outputs, its *)
(* last file is one more than the uninterrupted run has: extra = 1 shifts    *)
(* the numbers. Files that do not fit the run are refused before it starts.  *)
EXTENDS RealArith, Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE
Tol == RPow10(-9)
Near(a, b, scale) == RClose(a, b, 0, RMul(Tol, scale))
All(f, g, scale, what) == /\ Len(f) = Len(g) \/ Say("size", what)
                          /\ \A i \in DOMAIN f : Near(f[i], g[i], scale) \/ Say("value", <<what, i, f[i], g[i]>>)
SameOutput(r, k) ==
    LET a == r.rest[k] b == r.later[k] w == <<r.what, k>> IN
    /\ b.iter = a.iter \/ Say("iteration", <<w, a.iter, b.iter>>)
    /\ b.id = a.id + r.extra \/ Say("number", <<w, a.id, b.id>>)
    /\ RClose(b.time, a.time, RPow10(-11), 0) \/ Say("time", <<w, a.time, b.time>>)
    /\ \A d \in 1..3 : All(b.x[d], a.x[d], RAbs(a.x[d][Len(a.x[d])]), <<w, "x", d>>)
    /\ All(b.rho, a.rho, r.scale.rho, <<w, "rho">>) /\ All(b.P, a.P, r.scale.P, <<w, "P">>) /\ All(b.E, a.E, r.scale.E, <<w, "E">>)
    /\ Len(a.u) = Len(b.u) /\ \A d \in DOMAIN a.u : All(b.u[d], a.u[d], r.scale.u, <<w, "u", d>>)
    /\ Len(a.fx) = Len(b.fx) /\ \A d \in DOMAIN a.fx : All(b.fx[d], a.fx[d], 1, <<w, "fx", d>>)
Conforms ==
    LET r == Cases[c] IN
    IF r.kind = "misfit" THEN (r.rc # "0" /\ r.steps = 0 /\ r.files = 0) \/ Say("file that does not fit was not refused", <<r.what, r.rc, r.steps, r.files>>)
    ELSE /\ r.rc = r.rcthrough \/ Say("ended differently", <<r.what, r.rcthrough, r.rc, r.err>>)
         /\ Len(r.rest) = Len(r.later) \/ Say("outputs", <<r.what, [k \in DOMAIN r.rest |-> r.rest[k].iter], [k \in DOMAIN r.later |-> r.later[k].iter]>>)
         /\ \A k \in DOMAIN r.rest : SameOutput(r, k)
         \* step by step too
         /\ Len(r.dtrest) = Len(r.dtlater) \/ Say("steps", <<r.what, Len(r.dtrest), Len(r.dtlater)>>)
         /\ \A k \in DOMAIN r.dtrest : RClose(r.dtlater[k], r.dtrest[k], Tol, 0) \/ Say("length of step", <<r.what, k, r.dtrest[k], r.dtlater[k]>>)
=============================================================================
