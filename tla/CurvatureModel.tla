-------------------------- MODULE CurvatureModel --------------------------
(***************************************************************************)
(* The momentum sources of spherical coordinates, for one state on both    *)
(* faces, are the exact integrals over the cell of the terms of the Euler  *)
(* equations:                                                              *)
(*   r:     2 P / r + rho (u_th^2 + u_phi^2) / r                           *)
(*   th:    cot(th) P / r + rho (cot(th) u_phi^2 - u_r u_th) / r           *)
(*   phi:   - rho (u_r + cot(th) u_th) u_phi / r                           *)
(* up to the square of the relative width of the cell where a mean of      *)
(* r^2 stands for the square of a mean.                                    *)
(***************************************************************************)
EXTENDS Scheme, TLC
CONSTANTS Radii, Angles, Widths, Speeds
VARIABLE c
Cell3(q) == [geom |-> "Spherical", ndim |-> q.ndim, ng |-> 0, n |-> <<1, 1, 1>>,
             x |-> << <<q.r, RText(RMul(q.r, RAdd(1, q.w)))>>, <<q.th, RText(RAdd(q.th, q.w))>>, <<"0.3", RText(RAdd("0.3", q.w))>> >>]
Init == c \in [ndim : 1..3, r : Radii, th : Angles, w : Widths, u : [1..3 -> Speeds]]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Exact ==
    LET r == Cell3(c)
        m == Metric(r, <<0, 0, 0>>)
        s == [rho |-> R("1.7"), P |-> R("0.9"), u |-> [d \in 1..c.ndim |-> R(c.u[d])]]
        U(i) == IF i <= c.ndim THEN s.u[i] ELSE R(0)
        got(i) == AddUp([d \in 1..c.ndim |-> Curvature(r, m, d, R(1), s, s)[i]], c.ndim)
        \* integrals of 1/r and cot(th)/r
        rr == RDiv(RSub(Sqr(m.y[1]), Sqr(m.x[1])), 2)
        dphi == IF c.ndim = 3 THEN RSub(m.y[3], m.x[3]) ELSE RMul(2, RPi)
        i1 == RMul(rr, IF c.ndim = 1 THEN RMul(4, RPi) ELSE RMul(dphi, RSub(RCos(m.x[2]), RCos(m.y[2]))))
        ic == RMul(rr, RMul(dphi, RSub(RSin(m.y[2]), RSin(m.x[2]))))
        h2 == Sqr(RDiv(RSub(m.y[1], m.x[1]), RAdd(m.y[1], m.x[1])))
        rho == s.rho
        want(i) == CASE i = 1 -> RMul(i1, RAdd(RMul(2, s.P), RMul(rho, RAdd(Sqr(U(2)), Sqr(U(3))))))
                     [] i = 2 -> RSub(RMul(ic, RAdd(s.P, RMul(rho, Sqr(U(3))))), RMul(i1, RMul(rho, RMul(U(1), U(2)))))
                     [] i = 3 -> RNeg(RMul(rho, RMul(U(3), RAdd(RMul(i1, U(1)), RMul(ic, U(2))))))
        slack(i) == IF i = 1 THEN R(0) ELSE RAbs(RMul(h2, RMul(i1, RMul(rho, RMul(U(1), U(i))))))
    IN \A i \in 1..c.ndim : RLe(RAbs(RSub(got(i), want(i))), RAdd(RPow10(-18), RMul(slack(i), RAdd(1, RPow10(-15)))))
=============================================================================
