------------------------------ MODULE EosModel ------------------------------
(* The gas laws as written are mutual inverses, increasing in temperature,   *)
(* and the sound speed is that of their adiabats (numerical derivative).     *)
EXTENDS Eos
CONSTANTS Rhos, Temps, Gammas, Mus
VARIABLE s
Init == s \in [kind : {"PerfectGas", "RadGas"}, rho : 1..Len(Rhos), t : 1..Len(Temps), g : 1..Len(Gammas), mu : 1..Len(Mus), u : {0, 1, 2}]
Next == FALSE /\ UNCHANGED s
Spec == Init /\ [][Next]_s
E1 == [kind |-> s.kind, gamma |-> R(Gammas[s.g]), mu |-> R(Mus[s.mu])]
Near(a, b) == RClose(a, b, RPow10(-20), 0)
Qualities ==
    LET e == E1
        rho == R(Rhos[s.rho])
        t == R(Temps[s.t])
        p == TLCEval(POfT(e, rho, t))
        x == TLCEval(EOfT(e, rho, t))
        h == RPow10(-9)
        w == [rho |-> rho, u |-> <<R(s.u), R(-3)>>, P |-> p]
        b == ToPrim(e, ToCons(e, w))
        \* along an adiabat d(e_int) = P/rho^2 d(rho)
        rho2 == RMul(rho, RAdd(1, h))
        x2 == TLCEval(RMul(rho2, RAdd(RDiv(x, rho), RMul(RDiv(p, RMul(rho, rho)), RSub(rho2, rho)))))
        c2 == RDiv(RSub(POfE(e, rho2, x2), p), RSub(rho2, rho))
    IN /\ Near(TOfP(e, rho, p), t) /\ Near(TOfE(e, rho, x), t)
       /\ Near(EOfP(e, rho, p), x) /\ Near(POfE(e, rho, x), p)
       /\ RLt(p, POfT(e, rho, RMul(t, R("1.001")))) /\ RLt(x, EOfT(e, rho, RMul(t, R("1.001"))))
       /\ RClose(b.P, p, RPow10(-12), 0) /\ Near(b.u[1], w.u[1]) /\ Near(b.u[2], w.u[2])
       /\ Near(EkPrim(w), EkCons(ToCons(e, w)))
       /\ RClose(RMul(Sound(e, rho, p), Sound(e, rho, p)), c2, RPow10(-6), 0)
=============================================================================
