------------------------------ MODULE Riemann ------------------------------
(***************************************************************************)
(* Approximate Riemann solvers: the flux in direction d between a left and *)
(* a right conserved state.                                                *)
(*   HLL:  one intermediate state between the fastest signals;             *)
(*   HLLC: intermediate states on both sides of the contact, which moves   *)
(*         at speed S*;                                                    *)
(*   Low Mach: acoustic/transport splitting; the acoustic part gives the   *)
(*         velocity u* and pressure P* of the face (the dissipation of P*  *)
(*         is reduced at low Mach number), the transport part moves the    *)
(*         upwind state with u*.                                           *)
(***************************************************************************)
EXTENDS Eos
Solvers == {"HLL", "HLLC", "Low Mach"}
Hll(uL, uR, fL, fR, sL, sR) == RDiv(RAdd(RSub(RMul(sR, fL), RMul(sL, fR)), RMul(RMul(sL, sR), RSub(uR, uL))), RSub(sR, sL))
HllFlux(e, qL, qR, d) ==
    LET wL == ToPrim(e, qL)
        wR == ToPrim(e, qR)
        cL == TLCEval(Sound(e, wL.rho, wL.P))
        cR == TLCEval(Sound(e, wR.rho, wR.P))
        sL == TLCEval(RMin(0, RMin(RSub(wL.u[d], cL), RSub(wR.u[d], cR))))
        sR == TLCEval(RMax(0, RMax(RAdd(wL.u[d], cL), RAdd(wR.u[d], cR))))
        fL == EulerFlux(wL, qL, d)
        fR == EulerFlux(wR, qR, d)
    IN TLCEval([rho |-> Hll(qL.rho, qR.rho, fL.rho, fR.rho, sL, sR),
                m |-> TLCEval([i \in 1..Len(qL.m) |-> Hll(qL.m[i], qR.m[i], fL.m[i], fR.m[i], sL, sR)]),
                E |-> Hll(qL.E, qR.E, fL.E, fR.E, sL, sR)])
HllcFlux(e, qL, qR, d) ==
    LET wL == ToPrim(e, qL)
        wR == ToPrim(e, qR)
        cL == TLCEval(Sound(e, wL.rho, wL.P))
        cR == TLCEval(Sound(e, wR.rho, wR.P))
        sL == TLCEval(RMin(RSub(wL.u[d], cL), RSub(wR.u[d], cR)))
        sR == TLCEval(RMax(RAdd(wL.u[d], cL), RAdd(wR.u[d], cR)))
        rcL == TLCEval(RMul(wL.rho, RSub(sL, wL.u[d])))
        rcR == TLCEval(RMul(wR.rho, RSub(sR, wR.u[d])))
        us == TLCEval(RDiv(RAdd(RSub(wR.P, wL.P), RSub(RMul(rcL, wL.u[d]), RMul(rcR, wR.u[d]))), RSub(rcL, rcR)))
        \* both sides have the same pressure behind the contact
        ps == TLCEval(RAdd(wL.P, RMul(rcL, RSub(us, wL.u[d]))))
        Star(w, q, s) ==
            LET k == TLCEval(RDiv(RSub(s, w.u[d]), RSub(s, us)))
                f == EulerFlux(w, q, d)
                rs == TLCEval(RMul(q.rho, k))
                es == TLCEval(RMul(k, RAdd(q.E, RMul(RSub(us, w.u[d]), RAdd(RMul(q.rho, us), RDiv(w.P, RSub(s, w.u[d])))))))
                Jump(fi, ui, usi) == RAdd(fi, RMul(s, RSub(usi, ui)))
            IN TLCEval([rho |-> Jump(f.rho, q.rho, rs),
                        m |-> TLCEval([i \in 1..Len(q.m) |-> Jump(f.m[i], q.m[i], RMul(rs, IF i = d THEN us ELSE w.u[i]))]),
                        E |-> Jump(f.E, q.E, es)])
    IN CASE RLe(0, sL) -> EulerFlux(wL, qL, d)
         [] RLe(sR, 0) -> EulerFlux(wR, qR, d)
         [] RLt(0, us) -> Star(wL, qL, sL)
         [] OTHER -> Star(wR, qR, sR)
LowMachFlux(e, qL, qR, d) ==
    LET wL == ToPrim(e, qL)
        wR == ToPrim(e, qR)
        cL == TLCEval(Sound(e, wL.rho, wL.P))
        cR == TLCEval(Sound(e, wR.rho, wR.P))
        a == TLCEval(RMul(R("1.1"), RMax(RMul(wL.rho, cL), RMul(wR.rho, cR))))
        us == TLCEval(RSub(RDiv(RAdd(wL.u[d], wR.u[d]), 2), RDiv(RSub(wR.P, wL.P), RMul(2, a))))
        theta == TLCEval(RMin(1, RDiv(RAbs(us), RMin(cL, cR))))
        ps == TLCEval(RSub(RDiv(RAdd(wL.P, wR.P), 2), RMul(RDiv(RMul(theta, a), 2), RSub(wR.u[d], wL.u[d]))))
        q == IF RLt(0, us) THEN qL ELSE qR
    IN TLCEval([rho |-> RMul(us, q.rho),
                m |-> TLCEval([i \in 1..Len(q.m) |-> IF i = d THEN RAdd(RMul(us, q.m[i]), ps) ELSE RMul(us, q.m[i])]),
                E |-> RMul(us, RAdd(q.E, ps))])
Flux(solver, e, qL, qR, d) == CASE solver = "HLL" -> HllFlux(e, qL, qR, d) [] solver = "HLLC" -> HllcFlux(e, qL, qR, d) [] OTHER -> LowMachFlux(e, qL, qR, d)
(* size of the terms a flux is made of: rounding is judged against it *)
FluxScale(e, qL, qR, d) ==
    LET wL == ToPrim(e, qL)
        wR == ToPrim(e, qR)
        s == TLCEval(RAdd(RMax(RAbs(wL.u[d]), RAbs(wR.u[d])), RMax(Sound(e, wL.rho, wL.P), Sound(e, wR.rho, wR.P))))
        rho == TLCEval(RMax(qL.rho, qR.rho))
        en == TLCEval(RAdd(RMax(qL.E, qR.E), RMax(wL.P, wR.P)))
        mom == TLCEval(RSqrt(RMul(2, RMul(rho, en))))
    IN TLCEval([rho |-> RAdd(RMul(s, rho), mom), m |-> RAdd(RMul(s, mom), en), E |-> RMul(s, RMul(2, en))])
=============================================================================
