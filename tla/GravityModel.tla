---------------------------- MODULE GravityModel ----------------------------
(***************************************************************************)
(* Enclosed mass. The columns of cells are shared out among processes;     *)
(* each adds the mass and volume of its columns of every shell to a common *)
(* sum, in any order; once all have done so, every process knows the same  *)
(* shell averages, and the mass below any radius is the central mass plus  *)
(* the mass of the shells below.                                           *)
(***************************************************************************)
EXTENDS Gravity, Integers, Sequences, FiniteSets, TLC
CONSTANTS Owners,     \* processes
          Columns,    \* columns of cells, of volume share given by Weight
          NShells, Densities
VARIABLES owner, rho, mass, vol, done
vars == <<owner, rho, mass, vol, done>>
Edges == [i \in 1..(NShells + 1) |-> R(i)]
Weight(col) == col
TotalWeight == LET RECURSIVE S(_) S(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN Weight(x) + S(T \ {x}) IN S(Columns)
(* integers stand for volumes: shell i of a column of weight w has volume w * (3i(i+1)+1) *)
CellVolume(i, col) == Weight(col) * ((i + 1) * (i + 1) * (i + 1) - i * i * i)
RECURSIVE SumOver(_, _)
SumOver(T, f) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN f[x] + SumOver(T \ {x}, f)
Init == /\ owner \in [Columns -> Owners]
        /\ rho \in [1..NShells -> [Columns -> Densities]]
        /\ mass = [i \in 1..NShells |-> 0] /\ vol = [i \in 1..NShells |-> 0]
        /\ done = {}
Contribute(p) ==
    /\ p \notin done
    /\ LET mine == {col \in Columns : owner[col] = p} IN
       /\ mass' = [i \in 1..NShells |-> mass[i] + SumOver(mine, [col \in mine |-> rho[i][col] * CellVolume(i, col)])]
       /\ vol' = [i \in 1..NShells |-> vol[i] + SumOver(mine, [col \in mine |-> CellVolume(i, col)])]
    /\ done' = done \cup {p}
    /\ UNCHANGED <<owner, rho>>
Next == \E p \in Owners : Contribute(p)
Spec == Init /\ [][Next]_vars
(* the averages do not depend on who owns which column, nor on the order *)
Complete == done = Owners
Average(i) == RDiv(mass[i], vol[i])
WholeAverage(i) == RDiv(SumOver(Columns, [col \in Columns |-> rho[i][col] * CellVolume(i, col)]), SumOver(Columns, [col \in Columns |-> CellVolume(i, col)]))
AveragesComplete == Complete => \A i \in 1..NShells : RClose(Average(i), WholeAverage(i), RPow10(-30), 0)
(* the mass enclosed at the outer edge is the central mass plus everything; it grows outwards; a massless gas leaves the point mass *)
EnclosedRight ==
    Complete => LET sh == [i \in 1..NShells |-> Average(i)]
                    every == RMul(RDiv(RMul(4, RPi), RMul(3, TotalWeight)), SumOver(1..NShells, [i \in 1..NShells |-> SumOver(Columns, [col \in Columns |-> rho[i][col] * CellVolume(i, col)])]))
                    m(i) == Enclosed("5", Edges, sh, 0, i)
                IN /\ RClose(BelowFace("5", Edges, sh, 0, NShells + 1), RAdd(5, every), RPow10(-30), 0)
                   /\ \A i \in 1..NShells : /\ RLe(BelowFace("5", Edges, sh, 0, i), m(i)) /\ RLe(m(i), BelowFace("5", Edges, sh, 0, i + 1))
                   /\ (\A i \in 1..NShells : \A col \in Columns : rho[i][col] = 0) => \A i \in 1..NShells : REq(Felt([kind |-> "Internal_mass", M |-> "5"], Edges, sh, 0, i, 1), Felt([kind |-> "Point_mass", M |-> "5"], Edges, sh, 0, i, 1))
=============================================================================
