--------------------------- MODULE ScheduleTrace ---------------------------
(* Recorded runs: every step (time, length, the length stability allowed,    *)
(* whether it began with the wall-time budget used up) and every output file *)
(* (number, iteration, time). from: where the run starts (iteration 0 of a   *)
(* fresh run, or the file of a restart).                                     *)
EXTENDS Schedule, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pos, nout
vars == <<c, pos, nout>>
r == Cases[c]
Tol(u) == IF r.exact THEN R(0) ELSE RMul("4e-15", RMax(RAbs(u), RMax(RAbs(r.plan.first), RAbs(r.plan.tend))))
Init == c \in 1..Len(Cases) /\ pos = 0 /\ nout = IF Cases[c].from.restart THEN 0 ELSE IF WritesAtStart(Cases[c].plan) THEN 1 ELSE 0
S(k) == r.steps[k]
After(k) == IF k < Len(r.steps) THEN S(k + 1).t ELSE r.final
Out(k) == LET s == S(k) IN Writes(r.plan, s.t, After(k), Tol(s.t), r.from.iter + k, s.spent)
Next == /\ pos < Len(r.steps) /\ pos' = pos + 1 /\ nout' = (IF Out(pos + 1) THEN nout + 1 ELSE nout) /\ c' = c
Spec == Init /\ [][Next]_vars
Say(what, x) == PrintT(<<"REJECTED", c, r.what, what, x>>) /\ FALSE
FileIs(k, iter, time, exact) ==
    /\ Len(r.files) >= k \/ Say("missing output", <<k, iter, time>>)
    /\ (r.files[k].id = r.from.id + k /\ r.files[k].number = r.files[k].id) \/ Say("number of output", <<k, r.files[k]>>)
    /\ r.files[k].iter = iter \/ Say("iteration of output", <<k, iter, r.files[k]>>)
    /\ RClose(r.files[k].t, time, 0, IF exact THEN R(0) ELSE Tol(time)) \/ Say("time of output", <<k, time, r.files[k]>>)
StepOk(k) ==
    LET s == S(k) want == Length(r.plan, s.t, Tol(s.t), s.cfl) u == After(k) n == r.from.iter + k IN
    /\ RLt(0, s.dt) \/ Say("step backwards", s)
    /\ RClose(s.dt, want, IF r.exact THEN R(0) ELSE RPow10(-10), Tol(s.t)) \/ Say("length of step", <<k, s, RText(want)>>)
    /\ RClose(u, RAdd(s.t, s.dt), 0, Tol(s.t)) \/ Say("time", <<k, s, u>>)
    /\ RLe(u, RAdd(r.plan.tend, Tol(u))) \/ Say("past the end", <<k, u>>)
    /\ (k = Len(r.steps)) = Last(r.plan, u, Tol(u), n, s.spent) \/ Say("stop", <<k, Len(r.steps), s, u>>)
    /\ Out(k) => FileIs(nout, n, u, FALSE)
Late == ~r.from.restart /\ RLt(r.plan.tend, r.plan.tini)
Conforms == IF Late THEN (r.rc # "0" /\ r.steps = <<>> /\ r.files = <<>>) \/ Say("late start not refused", r.rc) ELSE
    /\ \A o \in DOMAIN r.others : r.others[o] = [k \in DOMAIN r.steps |-> <<S(k).t, S(k).dt>>] \/ Say("processes disagree", r.others[o])
    /\ pos = 0 => /\ Len(r.steps) > 0 \/ Say("no step", r.rc)
                  /\ r.rc = "0" \/ Say("error", r.err)
                  /\ RClose(S(1).t, r.from.t, 0, 0) \/ Say("start time", S(1))
                  /\ nout = 1 => FileIs(1, 0, r.from.t, TRUE)
    /\ pos > 0 => StepOk(pos)
    /\ pos = Len(r.steps) => (Len(r.files) = nout) \/ Say("outputs", <<nout, Len(r.files), r.files>>)
=============================================================================
