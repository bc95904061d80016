---------------------------- MODULE PhasesTrace ----------------------------
(* What user code was called for, in order, on one process of a recorded     *)
(* run: the borders it owns (mine, in the order they are to be filled) once  *)
(* at the start, then in every step the user step, the borders, the shift    *)
(* criterion if there is one, and the borders again after a shift. The user  *)
(* step is told the time and length of its step: times are those of the      *)
(* outputs, one per step.                                                    *)
EXTENDS RealArith, Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pos, pc, left, n
vars == <<c, pos, pc, left, n>>
Case == Cases[c]
Init == c \in 1..Len(Cases) /\ pos = 1 /\ pc = "borders" /\ left = Cases[c].mine /\ n = 0
(* borders still to be filled come first; then what follows *)
Bc(e) == pc \in {"borders", "again"} /\ left # <<>> /\ e.event = "bc" /\ <<e.dim, e.face>> = Head(left) /\ e.border /\ left' = Tail(left) /\ UNCHANGED <<pc, n>>
Told(e) == /\ e.n = n + 1 /\ e.ng = 0 /\ e.min = Case.min /\ e.max = Case.max
           /\ n + 2 <= Len(Case.times)
           /\ RClose(e.t, Case.times[n + 1], 0, 0) /\ RClose(RAdd(e.t, e.dt), Case.times[n + 2], RPow10(-15), 0)
StepEvent(e) == left = <<>> /\ (pc = "again" \/ (pc = "borders" /\ (n = 0 \/ ~Case.shift))) /\ e.event = "step" /\ Told(e) /\ n' = n + 1 /\ pc' = "borders" /\ left' = Case.mine
Asked(e) == left = <<>> /\ pc = "borders" /\ Case.shift /\ n > 0 /\ e.event = "shift" /\ e.n = n /\ n' = n /\ pc' = "again" /\ left' = IF e.yes THEN Case.mine ELSE <<>>
Next == pos <= Len(Case.events) /\ LET e == Case.events[pos] IN (Bc(e) \/ StepEvent(e) \/ Asked(e)) /\ pos' = pos + 1 /\ c' = c
Spec == Init /\ [][Next]_vars
Accepts(e) == \/ pc \in {"borders", "again"} /\ left # <<>> /\ e.event = "bc" /\ <<e.dim, e.face>> = Head(left) /\ e.border
              \/ left = <<>> /\ (pc = "again" \/ (pc = "borders" /\ (n = 0 \/ ~Case.shift))) /\ e.event = "step" /\ Told(e)
              \/ left = <<>> /\ pc = "borders" /\ Case.shift /\ n > 0 /\ e.event = "shift" /\ e.n = n
Conforms ==
    /\ pos <= Len(Case.events) => Accepts(Case.events[pos]) \/ (PrintT(<<"REJECTED", c, Case.what, pos, Case.events[pos], left, pc, n>>) /\ FALSE)
    /\ pos > Len(Case.events) => (left = <<>> /\ n = Case.steps) \/ (PrintT(<<"REJECTED", c, Case.what, "incomplete", left, n, Case.steps>>) /\ FALSE)
=============================================================================
