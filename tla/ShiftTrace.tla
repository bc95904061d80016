----------------------------- MODULE ShiftTrace -----------------------------
(* Recorded runs whose grid follows the flow. Every step ends with the       *)
(* question whether to shift. A shift relabels: cell i becomes what cell     *)
(* i + 1 would have been, the outermost one what its neighbour beyond the    *)
(* border would have been, and the coordinates move with them, the last      *)
(* spacing following the ratio of the two before. A shift that would bring   *)
(* the outer border to the limit is not done: shifting is over and the outer *)
(* border becomes null-gradient.                                             *)
(* A case: base (what Scheme needs of a run), states (one per output), dts,  *)
(* every and from (a shift is wanted in the steps from + every * i, i > 0)   *)
(* and limit.                                                                *)
EXTENDS StepCheck, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pos, over
vars == <<c, pos, over>>
Run == Cases[c]
Wanted(k) == k > Run.from /\ (k - Run.from) % Run.every = 0
(* where the outer border would go *)
Outer(k) == Run.states[k].x[1][Run.base.n[1] + Run.base.ng + 2]
Stopping(k) == ~over /\ Wanted(k) /\ RLe(Run.limit, Outer(k))
Moving(k) == ~over /\ Wanted(k) /\ RLt(Outer(k), Run.limit)
Init == c \in 1..Len(Cases) /\ pos = 0 /\ over = FALSE
Next == pos < Len(Run.dts) /\ pos' = pos + 1 /\ over' = (over \/ (pos > 0 /\ Stopping(pos))) /\ c' = c
Spec == Init /\ [][Next]_vars
(* step k, with the borders in force; over is the value before its end *)
Step(k) == LET s == Run.states[k] b == Run.base IN
    [x |-> s.x, rho |-> s.rho, u |-> s.u, P |-> s.P, E |-> s.E, fx |-> s.fx, dt |-> Run.dts[k], bc |-> IF over THEN [b.bc EXCEPT ![2] = "NullGradient"] ELSE b.bc] @@ b
Say(what, x) == SayFor(c, what, <<Run.base.what, pos, x>>)
Grid(k) ==
    LET a == Run.states[k].x b == Run.states[k + 1].x n == Len(a[1]) IN
    /\ (b[2] = a[2] /\ b[3] = a[3]) \/ Say("other directions", <<a, b>>)
    /\ Len(b[1]) = n \/ Say("size", Len(b[1]))
    /\ IF Moving(k)
       THEN /\ \A i \in 1..n-1 : b[1][i] = a[1][i + 1] \/ Say("coordinate", <<i, a[1], b[1]>>)
            /\ LET h == RSub(a[1][n], a[1][n - 1]) h0 == RSub(a[1][n - 1], a[1][n - 2])
               IN RClose(b[1][n], RAdd(a[1][n], RDiv(RMul(h, h), h0)), RPow10(-13), RMul(RPow10(-10), h)) \/ Say("last coordinate", <<a[1], b[1]>>)
       ELSE b[1] = a[1] \/ Say("grid moved", <<a[1], b[1]>>)
(* cell p after the step is cell s.cell of the update, momentum turned around along s.flips *)
Cell(k, r, st, p) ==
    LET s == IF Moving(k) THEN Final(Borders(r), Move(p, 1, 1)) ELSE [cell |-> p, flips |-> {}]
        v == NewState(r, st, s.cell)
        new == [v EXCEPT !.m = TLCEval([d \in 1..r.ndim |-> IF d \in s.flips THEN RNeg(@[d]) ELSE @[d]])]
    IN StateIs(c, r, p, Run.states[k + 1], Inner(r, p), new)
StepOk(k) ==
    LET r == Step(k) st == Stage(r) IN
    /\ Grid(k)
    /\ \A p \in (0..r.n[1]-1) \X (0..r.n[2]-1) \X (0..r.n[3]-1) : Cell(k, r, st, p)
Conforms == pos > 0 => StepOk(pos)
=============================================================================
