------------------------------ MODULE EosTrace ------------------------------
(* Recorded calls of the gas laws, the state conversions and their array     *)
(* versions.                                                                 *)
EXTENDS Eos, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE
E(r) == [kind |-> r.gas, gamma |-> R(r.gamma), mu |-> R(r.mu)]
Tight == RPow10(-12)
Rel(r) == IF r.gas = "RadGas" THEN RPow10(-9) ELSE Tight
Is(what, got, want, rtol, scale) == RClose(got, want, rtol, RMul(rtol, scale)) \/ Say(what, <<Cases[c].job, got, RText(want)>>)
GasOk(r) == LET e == E(r) q == Rel(r) IN
    /\ Is("gamma", r.out.gamma, e.gamma, Tight, 0) /\ Is("mean molecular weight", r.out.mu, e.mu, Tight, 0)
    /\ Is("internal energy of pressure", r.out.EofP, EOfP(e, r.rho, r.P), q, 0)
    /\ Is("internal energy of temperature", r.out.EofT, EOfT(e, r.rho, r.T), q, 0)
    /\ Is("pressure of internal energy", r.out.PofE, POfE(e, r.rho, r.e), q, 0)
    /\ Is("pressure of temperature", r.out.PofT, POfT(e, r.rho, r.T), q, 0)
    /\ Is("temperature of pressure", r.out.TofP, TOfP(e, r.rho, r.P), q, 0)
    /\ Is("temperature of internal energy", r.out.TofE, TOfE(e, r.rho, r.e), q, 0)
    /\ Is("sound speed", r.out.sound, Sound(e, r.rho, r.P), q, 0)
(* rounding of the pressure recovered from a total energy *)
Lost(e, en) == RMul(RPow10(-3), RMul(en, RMax(1, RMul(3, Gm1(e)))))
FluxIs(what, got, w, q, d, tol) == LET f == EulerFlux(w, q, d) sc == RAdd(RMul(RAbs(w.u[d]), RMul(2, q.E)), 0) IN
    /\ Is(what, got.rho, f.rho, tol, 0)
    /\ \A i \in 1..Len(q.m) : Is(what, got.m[i], f.m[i], tol, RMul(2, q.E))
    /\ Is(what, got.E, f.E, tol, sc)
StateOk(r) ==
    LET e == E(r) q == Rel(r) k == ToCons(e, r.w) nd == Len(r.w.u) IN
    /\ Is("density", r.out.cons.rho, r.w.rho, Tight, 0)
    /\ \A d \in 1..nd : Is("momentum", r.out.cons.m[d], k.m[d], Tight, 0)
    /\ Is("energy", r.out.cons.E, k.E, q, 0)
    /\ Is("kinetic energy", r.out.ekP, EkPrim(r.w), Tight, 0)
    /\ Is("kinetic energy of the conserved state", r.out.ekC, EkPrim(r.w), Tight, 0)
    /\ Is("internal energy", r.out.evol, Evol(k), q, k.E)
    /\ Is("density back", r.out.back.rho, r.w.rho, Tight, 0)
    /\ \A d \in 1..nd : Is("velocity back", r.out.back.u[d], r.w.u[d], Tight, 0)
    /\ Is("pressure back", r.out.back.P, r.w.P, q, Lost(e, k.E))
    /\ \A d \in 1..nd : FluxIs("flux of a primitive state", r.out.fluxP[d], r.w, k, d, q) /\ FluxIs("flux of a conserved state", r.out.fluxC[d], r.w, k, d, RPow10(-9))
(* array conversions: every cell of the range, no other *)
ArraysOk(r) ==
    LET e == E(r)
        w == r.out.w
        nd == r.ndim
        G(d) == IF d <= nd THEN r.ng ELSE 0
        K(d) == IF d <= nd THEN r.layers ELSE 0
        InRange(p) == \A d \in 1..3 : G(d) - K(d) <= p[d] /\ p[d] < w[d] - G(d) + K(d)
    IN /\ (r.out.rho = r.rho /\ r.out.v = r.v /\ r.out.s = r.s) \/ Say("the source arrays changed", r.job)
       /\ \A q \in 1..(w[1] * w[2] * w[3]) :
         LET p == <<(q - 1) % w[1], ((q - 1) \div w[1]) % w[2], (q - 1) \div (w[1] * w[2])>> IN
         IF ~InRange(p) THEN (r.out.ts[q] = "7.5" /\ \A d \in 1..nd : r.out.tv[d][q] = "7.5") \/ Say("cell outside the range touched", <<p, r.layers>>)
         ELSE IF r.back
              THEN LET cons == [rho |-> r.rho[q], m |-> [d \in 1..nd |-> r.v[d][q]], E |-> r.s[q]] x == ToPrim(e, cons) IN
                   (RClose(r.out.ts[q], x.P, Rel(r), RMul(Rel(r), Lost(e, r.s[q]))) /\ \A d \in 1..nd : RClose(r.out.tv[d][q], x.u[d], Tight, 0)) \/ Say("primitive", <<p, r.out.ts[q], RText(x.P)>>)
              ELSE LET prim == [rho |-> r.rho[q], u |-> [d \in 1..nd |-> r.v[d][q]], P |-> r.s[q]] x == ToCons(e, prim) IN
                   (RClose(r.out.ts[q], x.E, Rel(r), 0) /\ \A d \in 1..nd : RClose(r.out.tv[d][q], x.m[d], Tight, 0)) \/ Say("conserved", <<p, r.out.ts[q], RText(x.E)>>)
Conforms == LET r == Cases[c] IN
    CASE r.kind = "gas" -> GasOk(r)
      [] r.kind = "state" -> StateOk(r)
      [] r.kind = "arrays" -> ArraysOk(r)
      [] r.kind = "ctor" -> r.refused = ~GasUsable(E(r)) \/ Say("gas constants", <<r.job, "refused", r.refused>>)
      [] OTHER -> r.ok = StateValid(r.a, r.b) \/ Say("validity", <<r.job, r.ok>>)
=============================================================================
