---------------------------- MODULE SetupsModel ----------------------------
(* Are the shipped problems what they are named after? Checked on Setups for *)
(* a choice of settings: the atmospheres, the layers and the vortex are in   *)
(* balance, the branches of a problem meet where they should, and the blast  *)
(* waves hold the energy asked for.                                          *)
EXTENDS Setups
CONSTANT Depth
VARIABLE s
E(ga, mu) == [kind |-> "PerfectGas", gamma |-> R(ga), mu |-> R(mu)]
Gases == <<E("1.4", 1), E("1.6666666666666667", "0.62"), E("1.2", 2)>>
Tenths == 1..(5 + 5 * Depth)
Names == {"stratified_atm", "eq_hydro_sphe", "gresho_vortex", "kelvin_helmholtz", "rayleigh_taylor", "rayleigh_taylor3d", "sedov1d", "sedov2d", "sedov3d", "advection_sinus"}
Init == s \in [name : Names, gas : 1..3, v : 1..(1 + Depth), t : Tenths]
Next == FALSE /\ UNCHANGED s
Spec == Init /\ [][Next]_s

Frac == RDiv(s.t, 5 + 5 * Depth)
(* a place whose cell has centre <<x, y, z>> and widths 2h *)
At(x, y, z, h) == [at |-> <<0, 0, 0>>, lo |-> TLCEval(<<RSub(x, h), RSub(y, h), RSub(z, h)>>), hi |-> TLCEval(<<RAdd(x, h), RAdd(y, h), RAdd(z, h)>>)]
Prob(par, g, nd, geom) == [name |-> s.name, geom |-> geom, ndim |-> nd, e |-> Gases[s.gas], par |-> par, g |-> g, n |-> <<4, 4, 4>>, nfx |-> 1]
(* slope of f over a small distance h around x *)
Slope(f(_), x, h) == RDiv(RSub(f(RAdd(x, h)), f(RSub(x, h))), RMul(2, h))
Near(a, b, tol) == RClose(a, b, RPow10(-tol), 0)
P1(r, q, b) == Start(r, q, b, R(1), <<>>)

Balance(r, lo, hi, at(_), grav(_)) ==
    LET x == TLCEval(RAdd(lo, RMul(Frac, RSub(hi, lo))))
        h == TLCEval(RMul(RPow10(-4), RSub(hi, lo)))
        P(y) == P1(r, at(y), 1).P
    IN Near(Slope(P, x, h), RNeg(RMul(P1(r, at(x), 1).rho, grav(x))), 6)

Atmosphere == LET g == RMul(-3, s.v)
                  r == Prob([rho0 |-> "2.5", u0 |-> "0", T0 |-> "120"], <<g, R(0), R(0)>>, 1, "Cartesian")
                  h == TLCEval(ScalePlane(r))
                  at(x) == At(x, R(0), R(0), R("0.5"))
                  G(x) == RMul(3, s.v)
              IN Balance(r, RNeg(h), RMul(4, h), at, G)
Star0 == LET r == Prob([rho0 |-> "2.5", u0 |-> "0", T0 |-> "120", M |-> RMul(s.v, RPow10(19))], <<R(0), R(0), R(0)>>, 1, "Spherical")
             at(x) == At(x, R(1), R(1), RPow10(-3))
             G(x) == RDiv(RMul(GravG, r.par.M), Sq(x))
         IN Balance(r, R(1000), R(4000), at, G)
Layers == LET r == Prob([rho0 |-> "3", rho1 |-> s.v, u0 |-> "0"], <<R(0), R(0), R(-2)>>, 3, "Cartesian")
              at(z) == At(R(0), R(0), RAdd(z, R("0.001")), R("0.001"))
              G(x) == R(2)
              z == RSub(RMul(20, Frac), 10)
              up == TLCEval(P1(r, At(R(0), R(0), R("0.001"), R("0.001")), 1))
              down == TLCEval(P1(r, At(R(0), R(0), R("0.001"), R("0.001")), 2))
          IN /\ Balance(r, R(-9), R(9), at, G)
             (* both fluids press alike on the flat interface z = 0 *)
             /\ Near(up.P, down.P, 12) /\ Near(up.rho, 3, 12) /\ Near(down.rho, s.v, 12)
Vortex == LET r == Prob([rho0 |-> "1", u0 |-> "0", Ma |-> RDiv(1, s.v)], <<R(0), R(0), R(0)>>, 2, "Cartesian")
              x == RMul("0.4", Frac)
              h == RPow10(-5)
              b == IF RLt(x, "0.2") THEN 1 ELSE 2
              W(y) == Well(y, b)
          IN (* pressure holds the rotating fluid *)
             /\ REq(x, "0.2") \/ Near(x, "0.4", 10) \/ Near(Slope(W, x, h), RDiv(Sq(Spin(x, b)), x), 5)
             (* no jumps *)
             /\ Near(Spin("0.2", 1), Spin("0.2", 2), 12) /\ Near(Well(R("0.2"), 1), Well(R("0.2"), 2), 12)
             /\ REq(Spin("0.4", 2), 0) /\ Near(Well(R("0.4"), 2), Well(R("0.4"), 3), 12)
             (* Mach number of the fastest ring, where rho = 1 and speed 1 *)
             /\ Near(RSqrt(RDiv(1, RMul(r.e.gamma, GreshoP0(r)))), r.par.Ma, 12)
             (* the velocity is at right angles to the radius *)
             /\ LET c == P1(r, At(x, RMul("0.3", x), R(0), h), 1) IN RLe(RAbs(RAdd(RMul(c.u[1], x), RMul(c.u[2], RMul("0.3", x)))), RPow10(-25))
Shear == LET r == Prob([P0 |-> "10"], <<R(0), R(0), R(0)>>, 2, "Cartesian")
             x == RDiv(s.v, 3)
             c(y) == P1(r, At(x, y, R(0), RPow10(-3)), 1)
             a == TLCEval(c(RAdd(1, Frac)))
             b == TLCEval(c(RSub(1, Frac)))
             d == TLCEval(P1(r, At(RAdd(x, 2), RAdd(1, Frac), R(0), RPow10(-3)), 1))
         IN (* symmetric about the middle, periodic along the flow *)
            Near(a.rho, b.rho, 12) /\ Near(a.u[1], b.u[1], 12) /\ Near(a.u[2], b.u[2], 12) /\ Near(a.u[2], d.u[2], 12)
Interface == LET r == Prob([rho0 |-> "2", rho1 |-> "1", u |-> "0", fx0 |-> "0.9", fx1 |-> RDiv(s.v, 10)], <<R(0), R("-0.5"), R(0)>>, 2, "Cartesian")
                 y == RSub(Frac, RDiv(1, 2))
                 c(z) == P1(r, At(R("0.1"), z, R(0), RPow10(-4)), 1)
                 a == TLCEval(c(y))
                 b == TLCEval(c(RAdd(y, "0.01")))
             IN /\ RLe(1, a.rho) /\ RLe(a.rho, b.rho) /\ RLe(b.rho, 2)
                /\ RLe(r.par.fx1, a.fx[1]) /\ RLe(a.fx[1], b.fx[1]) /\ RLe(b.fx[1], "0.9")
                /\ Near(c(R("0.3")).rho, 2, 12) /\ Near(c(R("-0.3")).rho, 1, 12) /\ Near(c(R("-0.3")).fx[1], r.par.fx1, 12) /\ Near(c(R("0.3")).fx[1], "0.9", 12)
                (* the upper fluid rests on its weight *)
                /\ Near(RSub(b.P, a.P), RMul(RMul(-1, "0.005"), 2), 12)
(* energy put into the gas by the cells of the second branch *)
Blast == LET par == [rho0 |-> "2", u0 |-> "0", E0 |-> "1E-9", E1 |-> s.v, P0 |-> "0.1"]
             geom == IF s.name = "sedov3d" \/ (s.name = "sedov1d" /\ s.t % 2 = 0) THEN "Spherical" ELSE "Cartesian"
             nd == IF s.name = "sedov1d" THEN 1 ELSE IF s.name = "sedov2d" THEN 2 ELSE 3
             r == Prob(par, <<R(0), R(0), R(0)>>, nd, geom)
             q == [at |-> IF s.name = "sedov3d" THEN <<2, 2, 2>> ELSE <<0, 0, 0>>,
                   lo |-> IF s.name = "sedov2d" THEN <<R(0), R(0), R(0)>> ELSE <<R(1), R(1), R(1)>>, hi |-> <<RAdd(1, Frac), RAdd(1, Frac), RAdd(1, Frac)>>]
             v == TLCEval(Vol(r, q))
             c == Start(r, q, 2, v, <<>>)
             want == IF s.name = "sedov1d" /\ geom = "Cartesian" THEN RDiv(s.v, 2) ELSE R(s.v)
         IN Branches(r, q) = {2} /\ Near(RMul(EOfP(r.e, c.rho, c.P), v), want, 12)
Sinus == LET r == Prob([u0 |-> "1", P0 |-> "1"], <<R(0), R(0), R(0)>>, 1, "Cartesian")
             c(x) == P1(r, At(x, R(0), R(0), RPow10(-3)), 1).rho
         IN Near(c(Frac), c(RAdd(Frac, s.v)), 12) /\ Near(RAdd(c(Frac), c(RAdd(Frac, "0.5"))), 2, 12)
Fit == CASE s.name = "stratified_atm" -> Atmosphere [] s.name = "eq_hydro_sphe" -> Star0 [] s.name = "gresho_vortex" -> Vortex [] s.name = "kelvin_helmholtz" -> Shear
           [] s.name = "rayleigh_taylor" -> Interface [] s.name = "rayleigh_taylor3d" -> Layers [] s.name \in {"sedov1d", "sedov2d", "sedov3d"} -> Blast [] s.name = "advection_sinus" -> Sinus
=============================================================================
