----------------------------- MODULE StepCheck -----------------------------
(* When a recorded cell is the one the scheme computed: values to the        *)
(* rounding of the terms they are the sum of.                                *)
EXTENDS Scheme, Nickel
SayFor(k, what, x) == PrintT(<<"REJECTED", k, what, x>>) /\ FALSE
Tol == RPow10(-10)
Is(got, want, scale) == RClose(got, want, Tol, RMul(Tol, scale))
Clamped(v) == RMin(1, RMax(0, v))
(* what the user step adds: nothing, the heat of nickel, or a constant *)
Added(r, new) == CASE r.user.kind = "none" -> R(0)
                   [] r.user.kind = "nickel" -> RMul(RMul(Clamped(new.fx[1]), new.rho), RMul(Power(r.user.t), r.dt))
                   [] OTHER -> R(r.user.v)
(* the state before the step's border conditions: what the scheme and the user step make of cell p *)
NewState(r, st, p) == PressureFixed(r, st, p, Updated(r, st, p))
(* cell i of the recorded state got is new *)
StateIs(k, r, p, got, i, new) ==
    LET add == TLCEval(Added(r, new))
        prim == ToPrim(Gas(r), [rho |-> got.rho[i], m |-> TLCEval([d \in 1..r.ndim |-> RMul(got.rho[i], got.u[d][i])]), E |-> got.E[i]])
    IN /\ Is(got.rho[i], new.rho, new.sRho) \/ SayFor(k, "density", <<r.what, p, got.rho[i], RText(new.rho)>>)
       /\ \A d \in 1..r.ndim : Is(RMul(got.rho[i], got.u[d][i]), new.m[d], new.sM) \/ SayFor(k, "momentum", <<r.what, p, d, RText(RMul(got.rho[i], got.u[d][i])), RText(new.m[d])>>)
       /\ Is(got.E[i], RAdd(new.E, add), RAdd(new.sE, RAbs(add))) \/ SayFor(k, "energy", <<r.what, p, got.E[i], RText(RAdd(new.E, add))>>)
       /\ RClose(got.P[i], prim.P, RPow10(-9), RMul(RPow10(-12), RMul(got.E[i], RAdd(1, Gm1(Gas(r)))))) \/ SayFor(k, "pressure", <<r.what, p, got.P[i], RText(prim.P)>>)
       /\ Len(got.fx) = Len(new.fx) \/ SayFor(k, "number of scalars", <<r.what, Len(got.fx)>>)
       /\ \A f \in 1..Len(new.fx) : RClose(got.fx[f][i], Clamped(new.fx[f]), RPow10(-9), RPow10(-9)) \/ SayFor(k, "mass fraction", <<r.what, p, f, got.fx[f][i], RText(new.fx[f])>>)
=============================================================================
