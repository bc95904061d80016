---------------------------- MODULE RiemannTrace ----------------------------
(* Recorded calls of the Riemann solvers, with the conserved states given.   *)
EXTENDS Riemann, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE
Near(a, b, sc) == RClose(a, b, 0, RMul(RPow10(-10), sc))
Text(f) == [rho |-> RText(f.rho), m |-> [i \in 1..Len(f.m) |-> RText(f.m[i])], E |-> RText(f.E)]
Conforms ==
    LET r == Cases[c]
        e == [kind |-> r.gas, gamma |-> R(r.gamma), mu |-> R(r.mu)]
        f == Flux(r.solver, e, r.L, r.R, r.dir)
        sc == FluxScale(e, r.L, r.R, r.dir)
    IN (/\ Near(r.F.rho, f.rho, sc.rho)
        /\ Near(r.F.E, f.E, sc.E)
        /\ \A i \in 1..Len(f.m) : Near(r.F.m[i], f.m[i], sc.m)) \/ Say("flux", <<r.job, r.F, "expected", Text(f)>>)
=============================================================================
