---------------------------- MODULE RiemannModel ----------------------------
(* The flux formulas themselves have the stated qualities, on a lattice of   *)
(* pairs of states in two directions.                                        *)
EXTENDS Riemann
CONSTANTS Rhos, Speeds, Pressures, Gases     \* sequences of decimal texts; gas kinds
VARIABLE s
N2 == 1..Len(Speeds)
States == (1..Len(Rhos)) \X N2 \X N2 \X (1..Len(Pressures))
Init == s \in [solver : Solvers, gas : Gases, l : States, r : States]
Next == FALSE /\ UNCHANGED s
Spec == Init /\ [][Next]_s
Gas(kind) == [kind |-> kind, gamma |-> R("1.4"), mu |-> R("1.2")]
W(x) == [rho |-> R(Rhos[x[1]]), u |-> <<R(Speeds[x[2]]), R(Speeds[x[3]])>>, P |-> R(Pressures[x[4]])]
Small(sc) == RMul(RPow10(-20), sc)
Near(a, b, sc) == RClose(a, b, RPow10(-20), Small(sc))
SameFlux(f, g, sc) == Near(f.rho, g.rho, sc.rho) /\ Near(f.E, g.E, sc.E) /\ \A i \in 1..2 : Near(f.m[i], g.m[i], sc.m)
MirrorQ(q, d) == [q EXCEPT !.m[d] = RNeg(@)]
MirrorF(f, d) == [rho |-> RNeg(f.rho), m |-> [i \in 1..2 |-> IF i = d THEN f.m[i] ELSE RNeg(f.m[i])], E |-> RNeg(f.E)]
Swap(q) == [q EXCEPT !.m = <<q.m[2], q.m[1]>>]
SwapF(f) == [f EXCEPT !.m = <<f.m[2], f.m[1]>>]
Qualities ==
    LET e == Gas(s.gas)
        qL == ToCons(e, W(s.l))
        qR == ToCons(e, W(s.r))
        wL == ToPrim(e, qL)
        wR == ToPrim(e, qR)
        sc == FluxScale(e, qL, qR, 1)
        f == Flux(s.solver, e, qL, qR, 1)
        lo == RMin(RSub(wL.u[1], Sound(e, wL.rho, wL.P)), RSub(wR.u[1], Sound(e, wR.rho, wR.P)))
        hi == RMax(RAdd(wL.u[1], Sound(e, wL.rho, wL.P)), RAdd(wR.u[1], Sound(e, wR.rho, wR.P)))
    IN /\ s.l = s.r => SameFlux(f, EulerFlux(wL, qL, 1), sc)
       /\ SameFlux(Flux(s.solver, e, MirrorQ(qR, 1), MirrorQ(qL, 1), 1), MirrorF(f, 1), sc)
       /\ SameFlux(SwapF(Flux(s.solver, e, Swap(qL), Swap(qR), 2)), f, sc)
       /\ s.solver # "Low Mach" /\ RLt(0, lo) => SameFlux(f, EulerFlux(wL, qL, 1), sc)
       /\ s.solver # "Low Mach" /\ RLt(hi, 0) => SameFlux(f, EulerFlux(wR, qR, 1), sc)
       \* a contact at rest is kept
       /\ s.solver # "HLL" /\ s.l[4] = s.r[4] /\ REq(W(s.l).u[1], 0) /\ REq(W(s.r).u[1], 0) => Near(f.rho, 0, sc.rho) /\ Near(f.E, 0, sc.E) /\ Near(f.m[1], W(s.l).P, sc.m)
       \* mass and energy go with the face velocity in the low-Mach splitting
       /\ s.solver = "Low Mach" /\ s.l[1] = s.r[1] /\ s.l[4] = s.r[4] => Near(f.rho, RMul(wL.rho, RDiv(RAdd(wL.u[1], wR.u[1]), 2)), sc.rho)
=============================================================================
