------------------------------ MODULE TimeStep ------------------------------
(***************************************************************************)
(* The length of a step: the CFL number divided by the largest, over the   *)
(* cells, of the sum over directions of (speed + sound speed) / width.     *)
(***************************************************************************)
EXTENDS Geometry, Eos
(* physical width of a cell between the corners lo and hi *)
Width(geom, lo, hi, d) ==
    IF geom = "Cartesian" \/ d = 1 THEN Len3(lo, hi, d)
    ELSE IF d = 2 THEN RMul(Len3(lo, hi, 2), Centre(lo, hi, 1)) ELSE RMul(Len3(lo, hi, 3), RMul(Centre(lo, hi, 1), RSin(Centre(lo, hi, 2))))
RECURSIVE TotalTo(_, _)
TotalTo(f, n) == IF n = 0 THEN R(0) ELSE RAdd(f[n], TotalTo(f, n - 1))
SignalRate(geom, ndim, e, rho, u, P, lo, hi) ==
    LET s == TLCEval(Sound(e, rho, P)) IN TotalTo([d \in 1..ndim |-> RDiv(RAdd(RAbs(u[d]), s), Width(geom, lo, hi, d))], ndim)
RECURSIVE Largest(_, _)
Largest(f, n) == IF n = 1 THEN f[1] ELSE RMax(f[n], TLCEval(Largest(f, n - 1)))
=============================================================================
