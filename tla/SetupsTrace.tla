---------------------------- MODULE SetupsTrace ----------------------------
(* First outputs of the real program built with each shipped setup, and its  *)
(* borders and shift criterion called directly.                              *)
EXTENDS Setups, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE

G(r, d) == IF d <= r.ndim THEN r.ng ELSE 0
(* x[d]: faces of the whole domain, ghosts included *)
Place(r, i, j, k) ==
    LET at == <<i, j, k>> IN
    [at |-> at, lo |-> TLCEval([d \in 1..3 |-> R(r.x[d][at[d] + G(r, d) + 1])]), hi |-> TLCEval([d \in 1..3 |-> R(r.x[d][at[d] + G(r, d) + 2])])]
Rel == RPow10(-11)
(* the pressure goes through the total energy on its way to the file *)
Slack(o, ndim) == RMul(RPow10(-13), RMul(o.rho, RSumSeq([d \in 1..ndim |-> Sq(o.u[d])])))
RelP(r) == IF r.e.kind = "RadGas" THEN RPow10(-7) ELSE Rel
Matches(r, w, o) ==
    /\ RClose(o.rho, w.rho, Rel, 0)
    /\ \A d \in 1..r.ndim : RClose(o.u[d], w.u[d], Rel, RPow10(-14))
    /\ RClose(o.P, w.P, RelP(r), Slack(o, r.ndim))
    /\ \A f \in 1..r.nfx : RClose(o.fx[f], w.fx[f], Rel, RPow10(-15))
Obs(r, q) == [rho |-> r.out.rho[q], u |-> [d \in 1..r.ndim |-> r.out.u[d][q]], P |-> r.out.P[q], fx |-> [f \in 1..r.nfx |-> r.out.fx[f][q]]]
Idx(r, i, j, k) == i + r.n[1] * (j + r.n[2] * k) + 1
Column(r, i) == IF r.name = "v1d" THEN [rho |-> r.file.rho[i + 1], u |-> r.file.u[i + 1], P |-> r.file.P[i + 1], fx |-> [f \in 1..r.nfx |-> r.file.fx[f][i + 1]]] ELSE <<>>
StartOk(r) ==
    LET first == TLCEval(Vol(r, Place(r, 0, 0, 0))) IN
    /\ Len(r.out.rho) = r.n[1] * r.n[2] * r.n[3] \/ Say("cells", r.job)
    /\ \A i \in 0..r.n[1]-1 : \A j \in 0..r.n[2]-1 : \A k \in 0..r.n[3]-1 :
         LET q == Place(r, i, j, k)
             o == Obs(r, Idx(r, i, j, k))
         IN \/ \E b \in Branches(r, q) : Matches(r, Start(r, q, b, first, Column(r, i)), o)
            \/ Say("start", <<r.job, i, j, k, o, LET b == CHOOSE b \in Branches(r, q) : TRUE
                                                     w == Start(r, q, b, first, Column(r, i))
                                                 IN <<b, RText(w.rho), [d \in 1..r.ndim |-> RText(w.u[d])], RText(w.P), [f \in 1..r.nfx |-> RText(w.fx[f])]>> >>)
    (* heavy above light in every column *)
    /\ r.name # "rayleigh_taylor3d" \/ \A i \in 0..r.n[1]-1 : \A j \in 0..r.n[2]-1 : \A k \in 0..r.n[3]-2 :
         RLe(r.out.fx[1][Idx(r, i, j, k)], r.out.fx[1][Idx(r, i, j, k + 1)]) \/ Say("layers", <<r.job, i, j, k>>)
    (* v1d's radial grid is the file's, the angles are spread evenly *)
    /\ r.name # "v1d" \/ (/\ Len(r.x[1]) = Len(r.file.x0)
                          /\ \A i \in DOMAIN r.file.x0 : REq(r.x[1][i], r.file.x0[i]) \/ Say("radii", <<r.job, i, r.x[1][i], r.file.x0[i]>>)
                          /\ \A d \in 2..3 : \A i \in DOMAIN r.x[d] :
                               RClose(r.x[d][i], RAdd(r.ends[d][1], RDiv(RMul(i - 1 - G(r, d), RSub(r.ends[d][2], r.ends[d][1])), r.n[d])), Rel, RMul(Rel, RAbs(r.ends[d][2]))) \/ Say("angles", <<r.job, d, i, r.x[d][i]>>))

(* one block of the domain after the setup's border was applied to one side of it; 7: untouched *)
BlockOk(r, b) ==
    LET At(v, i, j, k) == v[i + b.size[1] * (j + b.size[2] * k) + 1]
        In(p) == IF r.face = 0 THEN p < r.ng ELSE p >= b.size[r.dim] - r.ng
    IN \A i \in 0..b.size[1]-1 :
        LET w == TLCEval(Ghost(r, RDiv(RAdd(b.x0[i + 1], b.x0[i + 2]), 2))) IN
        \A j \in 0..b.size[2]-1 : \A k \in 0..b.size[3]-1 :
          IF In(<<i, j, k>>[r.dim])
          THEN (/\ RClose(At(b.rho, i, j, k), w.rho, Rel, 0) /\ RClose(At(b.E, i, j, k), w.E, Rel, 0) /\ \A d \in 1..r.ndim : REq(At(b.m[d], i, j, k), 0))
               \/ Say("border", <<r.job, i, j, k, At(b.rho, i, j, k), At(b.E, i, j, k), RText(w.rho), RText(w.E)>>)
          ELSE (REq(At(b.rho, i, j, k), 7) /\ REq(At(b.E, i, j, k), 7) /\ \A d \in 1..r.ndim : REq(At(b.m[d], i, j, k), 7)) \/ Say("beside the border", <<r.job, i, j, k>>)

(* v[k][j][i]: outflow, whole numbers, ghosts of the radius included *)
ShiftOk(r) ==
    LET nl == r.sizes[CHOOSE b \in DOMAIN r.sizes : r.sizes[b].max = r.n[1]].n
        best(from, to) == LET S == {Fastest(r.v[q], from, to) : q \in DOMAIN r.v} IN CHOOSE m \in S : \A s \in S : s <= m
        to == r.n[1] + r.ng
        (* the ng cells inside the window may count as well *)
        narrow == best(to - r.cells + 1, to)
        wide == best(r.n[1] - r.cells + 1, to)
    IN IF nl < r.cells THEN (\A b \in DOMAIN r.blocks : r.blocks[b].refused) \/ Say("window wider than the last block accepted", r.job)
       ELSE \A b \in DOMAIN r.blocks : (~r.blocks[b].refused /\ r.blocks[b].yes \in {narrow >= r.vmax, wide >= r.vmax}) \/ Say("shift", <<r.job, b, narrow, wide, r.blocks[b]>>)
Conforms == LET r == Cases[c] IN
    CASE r.kind = "start" -> StartOk(r)
      [] r.kind = "border" -> \A b \in DOMAIN r.blocks : BlockOk(r, r.blocks[b])
      [] r.kind = "shift" -> ShiftOk(r)
=============================================================================
