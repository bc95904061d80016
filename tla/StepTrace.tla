----------------------------- MODULE StepTrace -----------------------------
(* Recorded steps of the real program: the new state of every cell is the    *)
(* one of the scheme, plus what the user step adds to its energy.            *)
EXTENDS StepCheck, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Conforms ==
    LET r == Cases[c] st == Stage(r) IN
    \A p \in (0..r.n[1]-1) \X (0..r.n[2]-1) \X (0..r.n[3]-1) : StateIs(c, r, p, r.after, Inner(r, p), NewState(r, st, p))
=============================================================================
