------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* When a run steps, writes and stops, said without reference to how the   *)
(* program keeps count. A plan p has tini, tend, maxiter, every (iterations *)
(* between outputs, 0: none), period (time between outputs, 0: none) and    *)
(* first (first scheduled time). tol is the rounding allowed on times.      *)
(***************************************************************************)
EXTENDS RealArith, Integers, Sequences
(* scheduled times: first, first + period, ... up to the end *)
Scheduled(p, k) == RAdd(p.first, RMul(k, p.period))
RECURSIVE Passed(_, _, _, _)
(* number of scheduled times up to t *)
Passed(p, t, tol, k) == IF RLe(Scheduled(p, k), RAdd(t, tol)) THEN Passed(p, t, tol, k + 1) ELSE k
HasTimes(p) == RLt(0, p.period)
NextTime(p, t, tol) == Scheduled(p, Passed(p, t, tol, 0))
Awaits(p, t, tol) == HasTimes(p) /\ RLe(NextTime(p, t, tol), RAdd(p.tend, tol))
(* the step from t: what stability allows, cut at the next scheduled time and at the end *)
Length(p, t, tol, cfl) ==
    LET a == RMin(cfl, RSub(p.tend, t)) IN IF Awaits(p, t, tol) THEN RMin(a, RSub(NextTime(p, t, tol), t)) ELSE a
(* the step from t to u, the iter-th, is the last one / ends with an output; spent: it began with the wall-time budget used up *)
Last(p, u, tol, iter, spent) == RLe(RSub(p.tend, tol), u) \/ iter >= p.maxiter \/ spent
Writes(p, t, u, tol, iter, spent) ==
    \/ p.every > 0 /\ iter % p.every = 0
    \/ Awaits(p, t, tol) /\ RLe(RSub(NextTime(p, t, tol), tol), u)
    \/ Last(p, u, tol, iter, spent)
WritesAtStart(p) == p.every > 0 \/ HasTimes(p)
=============================================================================
