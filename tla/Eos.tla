-------------------------------- MODULE Eos --------------------------------
(***************************************************************************)
(* Gas laws. A gas e is a record [kind, gamma, mu] (gamma, mu reals).      *)
(*   PerfectGas: P = rho kb T / (mu mp), internal energy P / (gamma-1).    *)
(*   RadGas:     gas in equilibrium with its radiation:                    *)
(*               P = rho kb T / (mu mp) + ar T^4 / 3,                      *)
(*               internal energy rho kb T / (mu mp (gamma-1)) + ar T^4.    *)
(* Primitive states are records [rho, u, P], conserved ones [rho, m, E],   *)
(* u and m being sequences with one entry per simulated direction.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, RealArith, TLC

Kb == R("1.380649E-23")
Mp == R("1.672649E-27")
Hp == R("6.62607015E-34")
Cl == R("2.99792458E8")
GravG == R("6.6743015E-11")
Sqr(x) == RMul(x, x)
Cub(x) == RMul(x, RMul(x, x))
P4(x) == Sqr(Sqr(x))
P5(x) == RMul(x, P4(x))
(* radiation constant *)
Ar == RDiv(RMul(RMul(8, P5(RPi)), P4(Kb)), RMul(15, RMul(Cub(Hp), Cub(Cl))))

(* gas pressure per kelvin *)
PerT(e, rho) == RDiv(RMul(rho, Kb), RMul(e.mu, Mp))
Gm1(e) == RSub(e.gamma, 1)
POfT(e, rho, t) == IF e.kind = "PerfectGas" THEN RMul(PerT(e, rho), t) ELSE RAdd(RMul(PerT(e, rho), t), RDiv(RMul(Ar, P4(t)), 3))
EOfT(e, rho, t) == LET g == RDiv(RMul(PerT(e, rho), t), Gm1(e)) IN IF e.kind = "PerfectGas" THEN g ELSE RAdd(g, RMul(Ar, P4(t)))

(* the positive root of a T^4 + b T = c (a, b, c > 0) by Newton's method from *)
(* above: the function is increasing and convex, so the iteration decreases   *)
(* to the root                                                                *)
RECURSIVE Root4(_, _, _, _, _)
Root4(a, b, cc, t, n) ==
    LET t3 == TLCEval(Cub(t))
        step == TLCEval(RDiv(RSub(RAdd(RMul(a, RMul(t3, t)), RMul(b, t)), cc), RAdd(RMul(RMul(4, a), t3), b)))
        new == TLCEval(RSub(t, step))
    IN IF n = 0 \/ RLe(RAbs(step), RMul(RPow10(-22), t)) THEN new ELSE Root4(a, b, cc, new, n - 1)
Above(a, b, cc) == RMul(R("1.000001"), RMin(RDiv(cc, b), RPow(RDiv(cc, a), R("0.25"))))
TOfP(e, rho, p) == IF e.kind = "PerfectGas" THEN RDiv(p, PerT(e, rho)) ELSE LET b == TLCEval(PerT(e, rho)) a == TLCEval(RDiv(Ar, 3)) IN Root4(a, b, p, TLCEval(Above(a, b, p)), 90)
TOfE(e, rho, x) == IF e.kind = "PerfectGas" THEN RDiv(RMul(x, Gm1(e)), PerT(e, rho)) ELSE LET b == TLCEval(RDiv(PerT(e, rho), Gm1(e))) a == TLCEval(Ar) IN Root4(a, b, x, TLCEval(Above(a, b, x)), 90)
EOfP(e, rho, p) == IF e.kind = "PerfectGas" THEN RDiv(p, Gm1(e)) ELSE EOfT(e, rho, TLCEval(TOfP(e, rho, p)))
POfE(e, rho, x) == IF e.kind = "PerfectGas" THEN RMul(x, Gm1(e)) ELSE POfT(e, rho, TLCEval(TOfE(e, rho, x)))
(* alpha: radiation pressure over gas pressure *)
Sound(e, rho, p) ==
    IF e.kind = "PerfectGas" THEN RSqrt(RDiv(RMul(e.gamma, p), rho))
    ELSE LET t == TLCEval(TOfP(e, rho, p))
             pg == TLCEval(RMul(PerT(e, rho), t))
             al == TLCEval(RDiv(RDiv(RMul(Ar, P4(t)), 3), pg))
             geff == RDiv(RAdd(RDiv(e.gamma, Gm1(e)), RAdd(RMul(20, al), RMul(16, Sqr(al)))), RAdd(RDiv(1, Gm1(e)), RMul(12, al)))
         IN RSqrt(RDiv(RMul(geff, pg), rho))

GasUsable(e) == RIsFinite(e.gamma) /\ RLt(1, e.gamma) /\ RIsFinite(e.mu) /\ RLt(0, e.mu)
StateValid(rho, x) == RIsFinite(rho) /\ RLt(0, rho) /\ RIsFinite(x) /\ RLt(0, x)

(* ----- states ----- *)
RECURSIVE SumSq(_, _)
SumSq(v, n) == IF n = 0 THEN R(0) ELSE RAdd(SumSq(v, n - 1), RMul(v[n], v[n]))
Norm2(v) == SumSq(v, Len(v))
EkPrim(w) == RDiv(RMul(w.rho, Norm2(w.u)), 2)
EkCons(q) == RDiv(RDiv(Norm2(q.m), q.rho), 2)
Evol(q) == RSub(q.E, EkCons(q))
ToCons(e, w) == TLCEval([rho |-> R(w.rho), m |-> TLCEval([d \in 1..Len(w.u) |-> RMul(w.rho, w.u[d])]), E |-> RAdd(EOfP(e, w.rho, w.P), EkPrim(w))])
ToPrim(e, q) == TLCEval([rho |-> R(q.rho), u |-> TLCEval([d \in 1..Len(q.m) |-> RDiv(q.m[d], q.rho)]), P |-> POfE(e, q.rho, TLCEval(Evol(q)))])
(* the Euler flux in direction d of a state given in both forms *)
EulerFlux(w, q, d) ==
    TLCEval([rho |-> q.m[d],
             m |-> TLCEval([i \in 1..Len(q.m) |-> IF i = d THEN RAdd(RMul(w.u[d], q.m[i]), w.P) ELSE RMul(w.u[d], q.m[i])]),
             E |-> RMul(w.u[d], RAdd(q.E, w.P))])
=============================================================================
