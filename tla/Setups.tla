------------------------------- MODULE Setups -------------------------------
(***************************************************************************)
(* The problems shipped with the solver (src/setups): the state every cell *)
(* of the domain starts from, the profile two of them continue into the    *)
(* ghost cells of a border, and the rule by which v1d asks for a shift.    *)
(*                                                                         *)
(* A problem r has: name, geom, ndim, e (gas law, see Eos), par (its       *)
(* settings), g (components of the uniform gravity), n (cells).            *)
(* A place q has: at (indices of the cell, from 0), lo, hi (coordinates of *)
(* its faces).                                                             *)
(* Problems with a front are given branch by branch: Branches is the set   *)
(* of branches a cell may be in (two of them only within rounding of the   *)
(* front), Start the state in one of them.                                 *)
(***************************************************************************)
EXTENDS Eos, Geometry, FiniteSets

Ctr(q, d) == Centre(q.lo, q.hi, d)
Tanh(x) == IF RLt(60, x) THEN R(1) ELSE IF RLt(x, -60) THEN R(-1) ELSE RSub(1, RDiv(2, RAdd(RExp(RMul(2, x)), 1)))
(* from a (far below y0) to b (far above), over a width w *)
Blend(a, b, y, y0, w) == RAdd(a, RMul(RDiv(RSub(b, a), 2), RAdd(1, Tanh(RDiv(RSub(y, y0), w)))))
Close(a, b) == RClose(a, b, RPow10(-13), RPow10(-15))
(* a <= b, undecided when they are the same number up to rounding *)
Below(a, b) == IF Close(a, b) THEN {TRUE, FALSE} ELSE {RLe(a, b)}
All(r, x) == [d \in 1..r.ndim |-> R(x)]
Cell(rho, u, p, fx) == TLCEval([rho |-> TLCEval(rho), u |-> TLCEval(u), P |-> TLCEval(p), fx |-> TLCEval(fx)])
Vol(r, q) == Volume(r.geom, r.ndim, q.lo, q.hi)

(* scale heights of the two atmospheres *)
ScalePlane(r) == RDiv(RMul(Kb, r.par.T0), RMul(RMul(r.e.mu, Mp), RAbs(r.g[1])))
ScaleStar(r) == RDiv(RMul(Kb, r.par.T0), RMul(RMul(r.e.mu, Mp), RMul(GravG, r.par.M)))
Plane(r, x) == RMul(r.par.rho0, RExp(RNeg(RDiv(x, ScalePlane(r)))))
Star(r, x) == RMul(r.par.rho0, RExp(RDiv(1, RMul(x, ScaleStar(r)))))
Profile(r, x) == IF r.name = "stratified_atm" THEN Plane(r, x) ELSE Star(r, x)

(* Gresho's vortex: speed of rotation, pressure above the one at the centre *)
Radius(q) == TLCEval(RSqrt(RAdd(Sq(Ctr(q, 1)), Sq(Ctr(q, 2)))))
Spin(x, b) == CASE b = 1 -> RMul(5, x) [] b = 2 -> RSub(2, RMul(5, x)) [] OTHER -> R(0)
Well(x, b) == CASE b = 1 -> RMul("12.5", Sq(x))
                [] b = 2 -> RAdd(RMul("12.5", Sq(x)), RAdd(RSub(4, RMul(20, x)), RMul(4, RLog(RMul(5, x)))))
                [] OTHER -> RSub(RMul(4, RLog(2)), 2)
GreshoP0(r) == RDiv(1, RMul(r.e.gamma, Sq(r.par.Ma)))

(* isentropic layers of the Rayleigh-Taylor problem in space *)
DeepP(r) == RMul(RMul(2, RPi), RMul(RAdd(r.par.rho0, r.par.rho1), RMul(RAbs(r.g[3]), 10)))
Layer(r, rho, z) == RMul(rho, RPow(RSub(1, RDiv(RMul("0.4", RMul(rho, RMul(RAbs(r.g[3]), z))), DeepP(r))), "1.5"))
LayerP(r, rho, z) == RMul(DeepP(r), RPow(RDiv(Layer(r, rho, z), rho), RDiv(5, 3)))

(* height of the wavy interface of the plane Rayleigh-Taylor problem *)
Wave(x) == RMul("0.01", RCos(RMul(RMul(4, RPi), x)))
Bump(y, y0) == RExp(RNeg(RDiv(Sq(RSub(y, y0)), R("0.04"))))

Branches(r, q) ==
    LET x == Ctr(q, 1) IN
    CASE r.name = "advection_gap" -> IF Close(x, "0.3") \/ Close(x, "0.7") THEN {1, 2} ELSE IF RLe(x, "0.3") \/ RLe("0.7", x) THEN {1} ELSE {2}
      [] r.name = "shock_tube" -> {IF b THEN 1 ELSE 2 : b \in Below(x, r.par.inter)}
      [] r.name = "implosion_test" -> {IF b THEN 2 ELSE 1 : b \in Below(RAdd(x, Ctr(q, 2)), "0.15")}
      [] r.name = "gresho_vortex" -> LET d == Radius(q) IN IF Close(d, "0.2") THEN {1, 2} ELSE IF Close(d, "0.4") THEN {2, 3} ELSE IF RLt(d, "0.2") THEN {1} ELSE IF RLt(d, "0.4") THEN {2} ELSE {3}
      (* where the energy is deposited *)
      [] r.name = "sedov1d" -> {IF q.at[1] = 0 THEN 2 ELSE 1}
      [] r.name = "sedov2d" -> {IF b THEN 2 ELSE 1 : b \in Below(RSqrt(RAdd(Sq(q.lo[1]), Sq(q.lo[2]))), "0.025")}
      [] r.name = "sedov3d" -> {IF REq(q.lo[1], 1) /\ q.at[2] = r.n[2] \div 2 /\ q.at[3] = r.n[3] \div 2 THEN 2 ELSE 1}
      (* the interface is drawn at random: heavy above, light below *)
      [] r.name = "rayleigh_taylor3d" -> {1, 2}
      [] OTHER -> {1}

(* first: volume of the first cell of the domain; col: what v1d's file says at this radius *)
Start(r, q, b, first, col) ==
    LET p == r.par
        x == Ctr(q, 1)
        y == Ctr(q, 2)
    IN
    CASE r.name = "advection_gap" -> Cell(R(IF b = 1 THEN p.rho0 ELSE p.rho1), All(r, p.u0), R(p.P0), <<>>)
      [] r.name = "advection_sinus" -> Cell(RAdd(1, RMul("0.1", RSin(RMul(RMul(2, RPi), x)))), All(r, p.u0), R(p.P0), <<>>)
      [] r.name = "shock_wall" -> Cell(R(p.rho0), All(r, p.u0), R(p.P0), <<>>)
      [] r.name = "shock_tube" -> IF b = 1 THEN Cell(R(p.rho0), All(r, p.u0), R(p.P0), <<>>) ELSE Cell(R(p.rho1), All(r, p.u1), R(p.P1), <<>>)
      [] r.name = "implosion_test" -> IF b = 1 THEN Cell(R(p.rho0), All(r, p.u0), R(p.P0), <<>>) ELSE Cell(R(p.rho1), All(r, p.u0), R(p.P1), <<>>)
      [] r.name = "heat_nickel" -> Cell(R(p.rho0), All(r, p.u0), POfT(r.e, p.rho0, p.T0), <<R(p.fx0)>>)
      [] r.name = "kelvin_helmholtz" ->
            LET s == TLCEval(RSub(Tanh(RDiv(RSub(y, "0.5"), "0.05")), Tanh(RDiv(RSub(y, "1.5"), "0.05")))) IN
            Cell(RAdd(1, s), <<s, RMul(RMul("0.01", RSin(RMul(RPi, x))), RAdd(Bump(y, "0.5"), Bump(y, "1.5")))>>, R(p.P0), <<>>)
      [] r.name = "rayleigh_taylor" ->
            Cell(Blend(p.rho1, p.rho0, y, Wave(x), "0.005"), All(r, p.u), RSub(RAdd(RDiv(10, 7), "0.25"), RMul(p.rho0, RMul(RAbs(r.g[2]), y))), <<Blend(p.fx1, p.fx0, y, Wave(x), "0.005")>>)
      [] r.name = "rayleigh_taylor3d" ->
            LET rho == IF b = 1 THEN p.rho0 ELSE p.rho1 IN
            Cell(Layer(r, rho, q.lo[3]), All(r, p.u0), LayerP(r, rho, q.lo[3]), <<R(IF b = 1 THEN 1 ELSE 0)>>)
      [] r.name = "gresho_vortex" ->
            LET d == Radius(q)
                v == IF REq(d, 0) THEN R(0) ELSE RDiv(Spin(d, b), d)
            IN Cell(R(p.rho0), IF b = 3 THEN All(r, p.u0) ELSE <<RNeg(RMul(v, y)), RMul(v, x)>>, RAdd(GreshoP0(r), Well(d, b)), <<>>)
      [] r.name = "stratified_atm" -> LET rho == TLCEval(Plane(r, x)) IN Cell(rho, All(r, p.u0), POfT(r.e, rho, p.T0), <<>>)
      [] r.name = "eq_hydro_sphe" -> LET rho == TLCEval(Star(r, x)) IN Cell(rho, All(r, p.u0), POfT(r.e, rho, p.T0), <<>>)
      [] r.name = "sedov1d" -> Cell(R(p.rho0), All(r, p.u0), POfE(r.e, p.rho0, RDiv(IF b = 1 THEN R(p.E0) ELSE IF r.geom = "Cartesian" THEN RDiv(p.E1, 2) ELSE R(p.E1), first)), <<>>)
      [] r.name = "sedov2d" -> Cell(R(p.rho0), All(r, p.u0), POfE(r.e, p.rho0, RDiv(IF b = 1 THEN p.E0 ELSE p.E1, Vol(r, q))), <<>>)
      [] r.name = "sedov3d" -> Cell(R(p.rho0), All(r, 0), IF b = 1 THEN R(p.P0) ELSE POfE(r.e, p.rho0, RDiv(p.E1, Vol(r, q))), <<>>)
      [] r.name = "v1d" -> Cell(R(col.rho), [d \in 1..r.ndim |-> IF d = 1 THEN R(col.u) ELSE R(0)], R(col.P), [f \in 1..Len(col.fx) |-> R(col.fx[f])])

(* what a border of the two atmospheres holds at x *)
Ghost(r, x) == LET rho == TLCEval(Profile(r, x)) IN [rho |-> rho, m |-> R(0), E |-> TLCEval(EOfT(r.e, rho, r.par.T0))]

(* v1d: the fastest outflow of the outermost cells; v(i): fastest outflow at radius i *)
Fastest(v, from, to) == LET S == {v[i] : i \in from..to} IN CHOOSE m \in S : \A s \in S : s <= m
=============================================================================
