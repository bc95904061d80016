------------------------------- MODULE Scheme -------------------------------
(***************************************************************************)
(* One time step of the finite-volume scheme, on the whole domain:         *)
(*   1. primitive states of the cells and, through the border conditions,  *)
(*      of two layers of ghost cells (Domain!Final);                       *)
(*   2. limited linear reconstruction of the primitive states on faces;    *)
(*   3. Hancock: face states moved half a step by the cell's own face      *)
(*      fluxes, geometric sources and gravity;                             *)
(*   4. one Riemann flux per face;                                         *)
(*   5. flux balance with areas and volumes, geometric sources, gravity;   *)
(*      mass fractions follow the upwind face value of the mass flux;      *)
(*   6. optionally, where internal energy is a small fraction of kinetic   *)
(*      energy, the energy obtained from the internal-energy equation.     *)
(*                                                                         *)
(* A step r is a record: geom, ndim, n (cells), ng, x (face coordinates,   *)
(* ghosts included, per direction), gas, gamma, mu, recon, solver, field   *)
(* (gravity), bc, app (border conditions and their order), dt, pf (text of *)
(* the threshold or "off") and the state before: rho, u, P, E, fx, with    *)
(* cells in the order first direction fastest.                             *)
(***************************************************************************)
EXTENDS Riemann, Limiters, Gravity, Geometry, Domain

Gas(r) == [kind |-> r.gas, gamma |-> R(r.gamma), mu |-> R(r.mu)]
Gh(r, d) == IF d <= r.ndim THEN r.ng ELSE 0
(* cells are numbered over the box with ghosts; cell coordinates are 0 based in the interior *)
WG(r) == [d \in 1..3 |-> r.n[d] + 2 * Gh(r, d)]
Num(r, w, p) == (p[1] + Gh(r, 1)) + w[1] * ((p[2] + Gh(r, 2)) + w[2] * (p[3] + Gh(r, 3))) + 1
CellAt(r, w, q) == <<((q - 1) % w[1]) - Gh(r, 1), (((q - 1) \div w[1]) % w[2]) - Gh(r, 2), ((q - 1) \div (w[1] * w[2])) - Gh(r, 3)>>
Inner(r, p) == p[1] + r.n[1] * (p[2] + r.n[2] * p[3]) + 1
(* outside the interior by at most k layers *)
Reach(r, p, k) == \A d \in 1..r.ndim : -k <= p[d] /\ p[d] < r.n[d] + k
Borders(r) == [n |-> r.n, bc |-> r.bc, app |-> r.app]
Move(p, d, s) == [p EXCEPT ![d] = @ + s]

(* 1. *)
Primitive(r, w, S, q) ==
    LET s == Final(S, CellAt(r, w, q))
        i == Inner(r, s.cell)
    IN [rho |-> R(r.rho[i]), u |-> TLCEval([d \in 1..r.ndim |-> IF d \in s.flips THEN RNeg(r.u[d][i]) ELSE R(r.u[d][i])]), P |-> R(r.P[i]), fx |-> TLCEval([k \in 1..Len(r.fx) |-> R(r.fx[k][i])])]

(* geometry of a cell *)
Lo(r, p) == [d \in 1..3 |-> R(r.x[d][p[d] + Gh(r, d) + 1])]
Hi(r, p) == [d \in 1..3 |-> R(r.x[d][p[d] + Gh(r, d) + 2])]
Metric(r, p) == LET lo == TLCEval(Lo(r, p)) hi == TLCEval(Hi(r, p)) IN
    TLCEval([dv |-> Volume(r.geom, r.ndim, lo, hi), lo |-> TLCEval([d \in 1..r.ndim |-> FaceArea(r.geom, r.ndim, lo, hi, d)]), hi |-> TLCEval([d \in 1..r.ndim |-> UpperFace(r.geom, r.ndim, lo, hi, d)]), x |-> lo, y |-> hi])

(* momentum sources of spherical coordinates from the states wL, wR on the two faces of direction d; k = dt/volume *)
Zero(nd) == [i \in 1..nd |-> R(0)]
Curvature(r, m, d, k, wL, wR) ==
    IF r.geom = "Cartesian" THEN Zero(r.ndim)
    ELSE LET ds == TLCEval(RSub(m.hi[d], m.lo[d]))
             press == RMul(RMul(k, RDiv(RAdd(wL.P, wR.P), 2)), ds)
             \* rho u_i^2 averaged over both faces, per unit of d(area)/2
             cent(i) == RMul(RMul(k, RDiv(RAdd(RMul(wL.rho, Sqr(wL.u[i])), RMul(wR.rho, Sqr(wR.u[i]))), 2)), RDiv(ds, 2))
             \* rho u_i u_j through both faces
             cross(i, j) == RMul(k, RAdd(RMul(RMul(wR.rho, RMul(wR.u[i], wR.u[j])), m.hi[d]), RMul(RMul(wL.rho, RMul(wL.u[i], wL.u[j])), m.lo[d])))
         IN CASE d = 1 ->
                   LET half == TLCEval(RDiv(RSub(m.y[1], m.x[1]), RAdd(m.y[1], m.x[1]))) IN
                   [i \in 1..r.ndim |-> IF i = 1 THEN RAdd(press, IF r.ndim = 1 THEN 0 ELSE IF r.ndim = 2 THEN cent(2) ELSE RAdd(cent(2), cent(3))) ELSE RNeg(RMul(half, cross(i, 1)))]
              [] d = 2 ->
                   LET sm == RSin(m.x[2])
                       sp == RSin(m.y[2])
                   IN [i \in 1..r.ndim |-> IF i = 1 THEN R(0) ELSE IF i = 2 THEN (IF r.ndim = 3 THEN RAdd(press, RMul(2, cent(3))) ELSE press) ELSE RNeg(RMul(RDiv(RSub(sp, sm), RAdd(sp, sm)), cross(3, 2)))]
              [] OTHER -> Zero(r.ndim)

(* 2. face states of cell p: side 0 and 1 in every direction *)
Rebuilt(r, w, prim, p, d, side) ==
    LET a == prim[Num(r, w, Move(p, d, -1))]
        b == prim[Num(r, w, p)]
        z == prim[Num(r, w, Move(p, d, 1))]
        H(o) == RSub(r.x[d][p[d] + o + Gh(r, d) + 2], r.x[d][p[d] + o + Gh(r, d) + 1])
        h0 == TLCEval(H(-1))
        h1 == TLCEval(H(0))
        h2 == TLCEval(H(1))
        V(f(_)) == Face(side, f(b), h1, TLCEval(CellSlope(r.recon, f(a), f(b), f(z), h0, h1, h2)))
    IN TLCEval([rho |-> V(LAMBDA s : s.rho), P |-> V(LAMBDA s : s.P), u |-> TLCEval([i \in 1..r.ndim |-> V(LAMBDA s : s.u[i])]), fx |-> TLCEval([k \in 1..Len(r.fx) |-> V(LAMBDA s : s.fx[k])])])

(* 3. the same moved half a step: conserved states with mass fractions *)
RECURSIVE AddUp(_, _)
AddUp(f, n) == IF n = 0 THEN R(0) ELSE RAdd(f[n], AddUp(f, n - 1))
Evolved(r, w, prim, felt, p) ==
    LET e == Gas(r)
        m == Metric(r, p)
        half == TLCEval(RDiv(r.dt, 2))
        k == TLCEval(RDiv(half, m.dv))
        face == TLCEval([d \in 1..r.ndim |-> TLCEval([s \in {0, 1} |-> Rebuilt(r, w, prim, p, d, s)])])
        cons == TLCEval([d \in 1..r.ndim |-> TLCEval([s \in {0, 1} |-> ToCons(e, face[d][s])])])
        fl == TLCEval([d \in 1..r.ndim |-> TLCEval([s \in {0, 1} |-> EulerFlux(face[d][s], cons[d][s], d)])])
        bal(d, a, b) == RMul(k, RSub(RMul(a, m.lo[d]), RMul(b, m.hi[d])))
        curv == TLCEval([d \in 1..r.ndim |-> TLCEval(Curvature(r, m, d, k, face[d][0], face[d][1]))])
        dRho == TLCEval(AddUp([d \in 1..r.ndim |-> bal(d, fl[d][0].rho, fl[d][1].rho)], r.ndim))
        dE == TLCEval(AddUp([d \in 1..r.ndim |-> bal(d, fl[d][0].E, fl[d][1].E)], r.ndim))
        dM == TLCEval([i \in 1..r.ndim |-> AddUp([d \in 1..r.ndim |-> RAdd(bal(d, fl[d][0].m[i], fl[d][1].m[i]), curv[d][i])], r.ndim)])
        dF == TLCEval([f \in 1..Len(r.fx) |-> AddUp([d \in 1..r.ndim |-> bal(d, RMul(face[d][0].fx[f], fl[d][0].rho), RMul(face[d][1].fx[f], fl[d][1].rho))], r.ndim)])
        g == TLCEval([i \in 1..r.ndim |-> felt[i][p[1] + Gh(r, 1) + 1]])
        new(d, s) == LET q == cons[d][s] rho == TLCEval(RAdd(q.rho, dRho)) IN
            TLCEval([rho |-> rho,
                     m |-> TLCEval([i \in 1..r.ndim |-> RAdd(RAdd(q.m[i], dM[i]), RMul(RMul(half, g[i]), q.rho))]),
                     E |-> RAdd(RAdd(q.E, dE), RMul(half, AddUp([i \in 1..r.ndim |-> RMul(g[i], q.m[i])], r.ndim))),
                     fx |-> TLCEval([f \in 1..Len(r.fx) |-> RDiv(RAdd(RMul(face[d][s].fx[f], q.rho), dF[f]), rho)])])
    IN TLCEval([d \in 1..r.ndim |-> TLCEval([s \in {0, 1} |-> new(d, s)])])

(* everything the update needs, computed once per step *)
ShellMean(r, w, prim, i) ==
    \* density averaged over all cells of the shell (i counts cells of the first direction from 1, ghosts included)
    LET cols == {<<j, k>> : j \in 0..r.n[2]-1, k \in 0..r.n[3]-1}
        cell(jk) == <<i - 1 - Gh(r, 1), jk[1], jk[2]>>
        at(q) == <<q % r.n[2], q \div r.n[2]>>
        total(f(_)) == RSumSeq([q \in 1..(r.n[2] * r.n[3]) |-> f(cell(at(q - 1)))])
        vol(p) == Volume(r.geom, r.ndim, TLCEval(Lo(r, p)), TLCEval(Hi(r, p)))
    IN RDiv(total(LAMBDA p : RMul(vol(p), prim[Num(r, w, p)].rho)), total(LAMBDA p : vol(p)))
FieldOf(r, w, prim) ==
    LET rr == r.x[1]
        shells == IF r.field.kind = "Internal_mass" THEN TLCEval([i \in 1..w[1] |-> IF i <= r.ng THEN R(0) ELSE ShellMean(r, w, prim, i)]) ELSE <<>>
    IN TLCEval([d \in 1..r.ndim |-> TLCEval([i \in 1..w[1] |-> Felt(r.field, rr, shells, r.ng, i, d)])])
Stage(r) ==
    LET w == TLCEval(WG(r))
        S == Borders(r)
        prim == TLCEval([q \in 1..(w[1] * w[2] * w[3]) |-> Primitive(r, w, S, q)])
        felt == FieldOf(r, w, prim)
        ev == TLCEval([q \in 1..(w[1] * w[2] * w[3]) |-> LET p == CellAt(r, w, q) IN IF Reach(r, p, 1) THEN Evolved(r, w, prim, felt, p) ELSE <<>>])
        flux == TLCEval([d \in 1..r.ndim |-> TLCEval([q \in 1..(w[1] * w[2] * w[3]) |->
                    LET p == CellAt(r, w, q) IN
                    IF \A i \in 1..r.ndim : 0 <= p[i] /\ p[i] < r.n[i] + (IF i = d THEN 1 ELSE 0)
                    THEN Flux(r.solver, Gas(r), ev[Num(r, w, Move(p, d, -1))][d][1], ev[q][d][0], d) ELSE <<>>])])
    IN [w |-> w, prim |-> prim, felt |-> felt, ev |-> ev, flux |-> flux]

(* 5. the new state of interior cell p, and the size of the terms it is the sum of *)
Updated(r, st, p) ==
    LET w == st.w
        q == Num(r, w, p)
        e == Gas(r)
        i0 == Inner(r, p)
        m == Metric(r, p)
        k == TLCEval(RDiv(r.dt, m.dv))
        old == st.prim[q]
        mom == TLCEval([i \in 1..r.ndim |-> RMul(old.rho, old.u[i])])
        fL == TLCEval([d \in 1..r.ndim |-> st.flux[d][q]])
        fR == TLCEval([d \in 1..r.ndim |-> st.flux[d][Num(r, w, Move(p, d, 1))]])
        bal(d, a, b) == RMul(k, RSub(RMul(a, m.lo[d]), RMul(b, m.hi[d])))
        size(d, a, b) == RMul(k, RAdd(RMul(RAbs(a), m.lo[d]), RMul(RAbs(b), m.hi[d])))
        face(d, s) == ToPrim(e, st.ev[q][d][s])
        curv == TLCEval([d \in 1..r.ndim |-> IF r.geom = "Cartesian" THEN Zero(r.ndim) ELSE TLCEval(Curvature(r, m, d, k, face(d, 0), face(d, 1)))])
        g == TLCEval([i \in 1..r.ndim |-> st.felt[i][p[1] + Gh(r, 1) + 1]])
        rho == TLCEval(RAdd(old.rho, AddUp([d \in 1..r.ndim |-> bal(d, fL[d].rho, fR[d].rho)], r.ndim)))
        \* mass fraction carried through the lower (o = 0) or upper (o = 1) face
        carried(d, o, f) ==
            LET fl == IF o = 0 THEN fL[d] ELSE fR[d]
                up == IF RLt(fl.rho, 0) THEN <<o, 0>> ELSE <<o - 1, 1>>
            IN RMul(fl.rho, st.ev[Num(r, w, Move(p, d, up[1]))][d][up[2]].fx[f])
        frac(f) == RDiv(RAdd(RMul(old.rho, old.fx[f]), AddUp([d \in 1..r.ndim |-> bal(d, carried(d, 0, f), carried(d, 1, f))], r.ndim)), rho)
    IN TLCEval([rho |-> rho,
                m |-> TLCEval([i \in 1..r.ndim |-> RAdd(RAdd(mom[i], RMul(RMul(r.dt, g[i]), old.rho)), AddUp([d \in 1..r.ndim |-> RAdd(bal(d, fL[d].m[i], fR[d].m[i]), curv[d][i])], r.ndim))]),
                E |-> RAdd(RAdd(r.E[i0], RMul(r.dt, AddUp([i \in 1..r.ndim |-> RMul(g[i], mom[i])], r.ndim))), AddUp([d \in 1..r.ndim |-> bal(d, fL[d].E, fR[d].E)], r.ndim)),
                fx |-> TLCEval([f \in 1..Len(r.fx) |-> TLCEval(frac(f))]),
                sRho |-> RAdd(old.rho, AddUp([d \in 1..r.ndim |-> size(d, fL[d].rho, fR[d].rho)], r.ndim)),
                sM |-> RAdd(RAdd(RMul(old.rho, RSqrt(RAdd(Norm2(old.u), RDiv(old.P, old.rho)))), RMul(r.dt, RMul(old.rho, AddUp([i \in 1..r.ndim |-> RAbs(g[i])], r.ndim)))),
                            AddUp([d \in 1..r.ndim |-> AddUp([i \in 1..r.ndim |-> RAdd(size(d, fL[d].m[i], fR[d].m[i]), RAbs(curv[d][i]))], r.ndim)], r.ndim)),
                sE |-> RAdd(RAbs(r.E[i0]), AddUp([d \in 1..r.ndim |-> size(d, fL[d].E, fR[d].E)], r.ndim))])

(* 6. *)
PressureFixed(r, st, p, new) ==
    LET w == st.w
        q == Num(r, w, p)
        e == Gas(r)
        m == Metric(r, p)
        eps == R(r.pf)
        Internal(c) == LET x == st.prim[Num(r, w, c)] IN EOfP(e, x.rho, x.P)
        ek == TLCEval(EkPrim(st.prim[q]))
        ei == TLCEval(Internal(p))
        eiNew == TLCEval(RSub(new.E, EkCons([rho |-> new.rho, m |-> new.m, E |-> new.E])))
        alpha == TLCEval(IF RLt(ei, RMul(RDiv(eps, 10), ek)) THEN R(0) ELSE Sqr(RDiv(ei, RMul(ek, eps))))
        U(c, d, s) == LET x == st.ev[Num(r, w, c)][d][s] IN RDiv(x.m[d], x.rho)
        us(d, o) == RDiv(RAdd(U(Move(p, d, o - 1), d, 1), U(Move(p, d, o), d, 0)), 2)
        up(d, o) == IF RLt(0, us(d, o)) THEN Internal(Move(p, d, o - 1)) ELSE Internal(Move(p, d, o))
        div == TLCEval(RDiv(AddUp([d \in 1..r.ndim |-> RSub(RMul(us(d, 1), m.hi[d]), RMul(us(d, 0), m.lo[d]))], r.ndim), m.dv))
        adv == TLCEval(RDiv(AddUp([d \in 1..r.ndim |-> RSub(RMul(RMul(us(d, 1), up(d, 1)), m.hi[d]), RMul(RMul(us(d, 0), up(d, 0)), m.lo[d]))], r.ndim), m.dv))
        dPf == RNeg(RMul(r.dt, RAdd(RMul(st.prim[q].P, div), adv)))
    IN IF r.pf = "off" \/ ~RLt(ei, RMul(eps, ek)) THEN new
       ELSE [new EXCEPT !.E = RAdd(RAdd(ei, ek), RAdd(RMul(alpha, RSub(eiNew, ei)), RMul(RSub(1, alpha), dPf)))]
=============================================================================
