---------------------------- MODULE SchemeModel ----------------------------
(***************************************************************************)
(* The scheme as a state machine on small domains: every initial state     *)
(* made of a palette of cell states, every choice of limiter, solver and   *)
(* borders; each transition is one time step of the length the scheme      *)
(* itself asks for. The invariants are the properties users rely on:       *)
(* conservation, uniform and resting fluids, passive scalars, mirrored and *)
(* permuted problems.                                                      *)
(***************************************************************************)
EXTENDS Scheme, TLC

CONSTANTS Places,      \* names of the domains
          Recons, Kinds,    
          Closures,    \* border condition of all borders
          Palette,     \* cell states <<rho, u1, u2, u3, P, fx>>
          Steps
VARIABLES s, now, k
vars == <<s, now, k>>

(* ----- domains ----- *)
Even(n) == [i \in 1..(n + 5) |-> RText(RDiv(i - 3, n))]
Uneven(n) == [i \in 1..(n + 5) |-> RText(RDiv((i + 2) * (i + 2), 10))]
Place(name) ==
    CASE name = "line"    -> [geom |-> "Cartesian", ndim |-> 1, n |-> <<3, 1, 1>>, x |-> <<Even(3), <<"0", "1">>, <<"0", "1">> >>]
      [] name = "wide"    -> [geom |-> "Cartesian", ndim |-> 1, n |-> <<4, 1, 1>>, x |-> <<Uneven(4), <<"0", "1">>, <<"0", "1">> >>]
      [] name = "square"  -> [geom |-> "Cartesian", ndim |-> 2, n |-> <<2, 2, 1>>, x |-> <<Even(2), Even(2), <<"0", "1">> >>]
      [] name = "box"     -> [geom |-> "Cartesian", ndim |-> 3, n |-> <<2, 2, 1>>, x |-> <<Even(2), Even(2), Even(1)>>]
      [] name = "shells"  -> [geom |-> "Spherical", ndim |-> 1, n |-> <<3, 1, 1>>, x |-> <<Uneven(3), <<"0", "3">>, <<"0", "6">> >>]
      [] name = "wedge"   -> [geom |-> "Spherical", ndim |-> 2, n |-> <<2, 2, 1>>, x |-> <<Uneven(2), <<"0.2", "0.6", "0.8", "1.1", "1.3", "1.4", "1.7">>, <<"0", "6">> >>]
      [] name = "sector"  -> [geom |-> "Spherical", ndim |-> 3, n |-> <<2, 2, 1>>, x |-> <<Uneven(2), <<"0.2", "0.6", "0.8", "1.1", "1.3", "1.4", "1.7">>, <<"0", "0.2", "0.5", "0.6", "0.9", "1">> >>]

Cells(p) == p.n[1] * p.n[2] * p.n[3]
EnergyText(nd, cell) == RText(RAdd(RDiv(cell[5], "0.4"), RMul(RDiv(cell[1], 2), AddUp([d \in 1..nd |-> RMul(cell[d + 1], cell[d + 1])], nd))))
Fill(nd, cells) == [rho |-> [i \in DOMAIN cells |-> cells[i][1]], u |-> [d \in 1..nd |-> [i \in DOMAIN cells |-> cells[i][d + 1]]], P |-> [i \in DOMAIN cells |-> cells[i][5]],
                    E |-> [i \in DOMAIN cells |-> EnergyText(nd, cells[i])], fx |-> << [i \in DOMAIN cells |-> cells[i][6]] >>]

Scenario(p, recon, solver, bc) ==
    [geom |-> p.geom, ndim |-> p.ndim, n |-> p.n, ng |-> 2, x |-> p.x, gas |-> "PerfectGas", gamma |-> "1.4", mu |-> "1", recon |-> recon, solver |-> solver,
     field |-> [kind |-> "Uniform", g |-> <<"0", "0", "0">>], bc |-> [b \in 1..(2 * p.ndim) |-> bc], app |-> [b \in 1..(2 * p.ndim) |-> b - 1], pf |-> "off"]
With(sc, st, dt) == [geom |-> sc.geom, ndim |-> sc.ndim, n |-> sc.n, ng |-> sc.ng, x |-> sc.x, gas |-> sc.gas, gamma |-> sc.gamma, mu |-> sc.mu, recon |-> sc.recon, solver |-> sc.solver,
                     field |-> sc.field, bc |-> sc.bc, app |-> sc.app, pf |-> sc.pf, dt |-> dt, rho |-> st.rho, u |-> st.u, P |-> st.P, E |-> st.E, fx |-> st.fx]

(* ----- one step ----- *)
CellsIn(sc) == sc.n[1] * sc.n[2] * sc.n[3]
At(sc, i) == <<(i - 1) % sc.n[1], ((i - 1) \div sc.n[1]) % sc.n[2], (i - 1) \div (sc.n[1] * sc.n[2])>>
(* physical width of a cell *)
PhysicalWidth(sc, p, d) ==
    LET lo == Lo(sc, p) hi == Hi(sc, p) mid(e) == RDiv(RAdd(lo[e], hi[e]), 2) IN
    IF sc.geom = "Cartesian" \/ d = 1 THEN RSub(hi[d], lo[d])
    ELSE IF d = 2 THEN RMul(RSub(hi[2], lo[2]), mid(1)) ELSE RMul(RSub(hi[3], lo[3]), RMul(mid(1), RSin(mid(2))))
Rate(sc, st, i) == AddUp([d \in 1..sc.ndim |-> RDiv(RAdd(RAbs(st.u[d][i]), RSqrt(RDiv(RMul(sc.gamma, st.P[i]), st.rho[i]))), PhysicalWidth(sc, At(sc, i), d))], sc.ndim)
RECURSIVE MaxOf(_, _)
MaxOf(f, n) == IF n = 1 THEN f[1] ELSE RMax(f[n], MaxOf(f, n - 1))
Dt(sc, st) == RText(RDiv("0.4", MaxOf([i \in 1..CellsIn(sc) |-> TLCEval(Rate(sc, st, i))], CellsIn(sc))))
Advance(sc, st, dt) ==
    LET r == TLCEval(With(sc, st, dt))
        stage == TLCEval(Stage(r))
        e == Gas(r)
        new == TLCEval([i \in 1..CellsIn(sc) |-> TLCEval(Updated(r, stage, At(sc, i)))])
        prim == TLCEval([i \in 1..CellsIn(sc) |-> TLCEval(ToPrim(e, [rho |-> new[i].rho, m |-> new[i].m, E |-> new[i].E]))])
    IN [rho |-> TLCEval([i \in DOMAIN new |-> RText(new[i].rho)]), u |-> TLCEval([d \in 1..sc.ndim |-> TLCEval([i \in DOMAIN new |-> RText(prim[i].u[d])])]), P |-> TLCEval([i \in DOMAIN new |-> RText(prim[i].P)]),
        E |-> TLCEval([i \in DOMAIN new |-> RText(new[i].E)]), fx |-> TLCEval([f \in 1..Len(st.fx) |-> TLCEval([i \in DOMAIN new |-> RText(RMin(1, RMax(0, new[i].fx[f])))])])]

Init == /\ \E pn \in Places, rc \in Recons, so \in Kinds, bc \in Closures :
              s = Scenario(Place(pn), rc, so, bc)
        /\ \E f \in [1..CellsIn(s) -> Palette] : now = Fill(s.ndim, f)
        /\ k = 0
Next == /\ k < Steps
        /\ \A i \in DOMAIN now.P : RLt(0, now.P[i]) /\ RLt(0, now.rho[i])
        /\ now' = Advance(s, now, Dt(s, now))
        /\ k' = k + 1
        /\ UNCHANGED s
Spec == Init /\ [][Next]_vars

(* ----- comparisons ----- *)
Eps == RPow10(-15)
Near(a, b, scale) == RClose(a, b, Eps, RMul(Eps, scale))
Speed(sc, st) == MaxOf([i \in 1..CellsIn(sc) |-> TLCEval(RAdd(RSqrt(AddUp([d \in 1..sc.ndim |-> RMul(st.u[d][i], st.u[d][i])], sc.ndim)), RSqrt(RDiv(RMul(sc.gamma, st.P[i]), st.rho[i]))))], CellsIn(sc))
SameState(sc, a, b, v) ==
    \A i \in 1..CellsIn(sc) : /\ Near(a.rho[i], b.rho[i], a.rho[i]) /\ Near(a.P[i], b.P[i], a.E[i]) /\ Near(a.E[i], b.E[i], a.E[i])
                              /\ \A d \in 1..sc.ndim : Near(a.u[d][i], b.u[d][i], v)
                              /\ \A f \in DOMAIN a.fx : Near(a.fx[f][i], b.fx[f][i], 1)

(* ----- the properties ----- *)
Mean(sc, f) == RSumSeq([i \in 1..CellsIn(sc) |-> RMul(Volume(sc.geom, sc.ndim, TLCEval(Lo(sc, At(sc, i))), TLCEval(Hi(sc, At(sc, i)))), f[i])])
Momentum(sc, st, d) == [i \in 1..CellsIn(sc) |-> RMul(st.rho[i], st.u[d][i])]
ScalarMass(sc, st, f) == [i \in 1..CellsIn(sc) |-> RMul(st.rho[i], st.fx[f][i])]
(* what leaves through the borders does not exist here: one step keeps the totals (evenly spaced Cartesian domains) *)
Closed == s.geom = "Cartesian" /\ s.n # <<4, 1, 1>> /\ \A b \in DOMAIN s.bc : s.bc[b] \in {"Periodic", "Reflexive"}
AllPeriodic == \A b \in DOMAIN s.bc : s.bc[b] = "Periodic"
Uncut(st) == \A f \in DOMAIN st.fx : \A i \in DOMAIN st.fx[f] : RLt(0, st.fx[f][i]) /\ RLt(st.fx[f][i], 1)
Conserves == [][Closed => /\ Near(Mean(s, now'.rho), Mean(s, now.rho), 1)
                          /\ Near(Mean(s, now'.E), Mean(s, now.E), 1)
                          /\ Uncut(now') => \A f \in DOMAIN now.fx : Near(Mean(s, ScalarMass(s, now', f)), Mean(s, ScalarMass(s, now, f)), 1)
                          /\ AllPeriodic => \A d \in 1..s.ndim : Near(Mean(s, Momentum(s, now', d)), Mean(s, Momentum(s, now, d)), RMul(Mean(s, now.rho), Speed(s, now)))]_vars

AllEqual(f) == \A i \in DOMAIN f : f[i] = f[1]
ScalarsBounded == \A f \in DOMAIN now.fx : \A i \in DOMAIN now.fx[f] : RLe(0, now.fx[f][i]) /\ RLe(now.fx[f][i], 1)
ConstantScalarStays == [][\A f \in DOMAIN now.fx : (\A i \in DOMAIN now.fx[f] : Near(now.fx[f][i], now.fx[f][1], 1)) => \A i \in DOMAIN now.fx[f] : Near(now'.fx[f][i], now.fx[f][1], 1)]_vars

AtRest == (\A d \in 1..s.ndim : \A i \in DOMAIN now.u[d] : Near(now.u[d][i], 0, 1)) /\ \A i \in DOMAIN now.P : Near(now.P[i], now.P[1], 1)
RestStays == [][AtRest => (\A d \in 1..s.ndim : \A i \in DOMAIN now.u[d] : Near(now'.u[d][i], 0, 10)) /\ (\A i \in DOMAIN now.P : Near(now'.P[i], now.P[1], 10))]_vars
UniformNow == \A i \in DOMAIN now.rho : Near(now.rho[i], now.rho[1], 1) /\ Near(now.P[i], now.P[1], 1) /\ \A d \in 1..s.ndim : Near(now.u[d][i], now.u[d][1], 1)
UniformStays == [][s.geom = "Cartesian" /\ (\A b \in DOMAIN s.bc : s.bc[b] # "Reflexive") /\ UniformNow => SameState(s, now', [now EXCEPT !.fx = now'.fx], Speed(s, now))]_vars

(* mirror image in direction d *)
MirrorIndex(sc, d, i) == LET p == At(sc, i) IN Inner(sc, [p EXCEPT ![d] = sc.n[d] - 1 - @])
MirrorState(sc, d, st) ==
    LET M(f) == TLCEval([i \in DOMAIN f |-> f[MirrorIndex(sc, d, i)]]) IN
    [rho |-> M(st.rho), u |-> [e \in 1..sc.ndim |-> IF e = d THEN TLCEval([i \in DOMAIN st.u[e] |-> RText(RNeg(st.u[e][MirrorIndex(sc, d, i)]))]) ELSE M(st.u[e])], P |-> M(st.P), E |-> M(st.E), fx |-> [f \in DOMAIN st.fx |-> M(st.fx[f])]]
MirrorAxis(x) == [i \in DOMAIN x |-> RText(RNeg(x[Len(x) + 1 - i]))]
MirrorScenario(sc, d) == [sc EXCEPT !.x[d] = MirrorAxis(@)]
Mirrors == [][s.geom = "Cartesian" => \A d \in 1..s.ndim :
                 SameState(s, Advance(MirrorScenario(s, d), MirrorState(s, d, now), Dt(s, now)), MirrorState(s, d, now'), Speed(s, now))]_vars
(* the first two directions exchanged *)
Swap(t) == [t EXCEPT ![1] = t[2], ![2] = t[1]]
SwapScenario(sc) == [sc EXCEPT !.x = Swap(@), !.n = Swap(@)]
SwapIndex(sc, i) == Inner(sc, Swap(At(SwapScenario(sc), i)))
SwapState(sc, st) == LET M(f) == TLCEval([i \in DOMAIN f |-> f[SwapIndex(sc, i)]]) IN
    [rho |-> M(st.rho), u |-> Swap([e \in 1..sc.ndim |-> M(st.u[e])]), P |-> M(st.P), E |-> M(st.E), fx |-> [f \in DOMAIN st.fx |-> M(st.fx[f])]]
Permutes == [][s.geom = "Cartesian" /\ s.ndim >= 2 =>
                 SameState(s, Advance(SwapScenario(s), SwapState(s, now), Dt(s, now)), SwapState(s, now'), Speed(s, now))]_vars
(* the flow does not know about the scalar *)
NoFeedback == [][LET other == [now EXCEPT !.fx = << [i \in DOMAIN now.rho |-> IF i % 2 = 0 THEN "0.1" ELSE "0.9"] >>]
                     w == Advance(s, other, Dt(s, now)) IN [w EXCEPT !.fx = now'.fx] = now']_vars
=============================================================================
