--------------------------- MODULE GeometryModel ---------------------------
(***************************************************************************)
(* Laws the areas and volumes must obey, over grids whose coordinates are  *)
(* multiples of a fixed step: volumes are positive and add up, closed      *)
(* Cartesian cells have opposite faces of equal area, and the outflow of   *)
(* the position vector through the faces of a cell is three times its      *)
(* volume.                                                                 *)
(***************************************************************************)
EXTENDS Geometry, TLC
CONSTANTS Steps
VARIABLES geom, ndim, a, b, m
vars == <<geom, ndim, a, b, m>>
(* coordinates: radius in steps of 1/2, angles in steps of 1/3 *)
X(d, k) == IF geom = "Cartesian" \/ d = 1 THEN RDiv(k, 2) ELSE RDiv(k, 3)
Init == /\ geom \in Geometries /\ ndim \in 1..3
        /\ a \in {<<i, j, k>> : i \in 0..Steps, j \in 0..Steps, k \in 0..Steps}
        /\ b \in {<<i, j, k>> : i \in 1..Steps, j \in 1..2, k \in 1..2} /\ m \in 1..3
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Lo == [d \in 1..3 |-> X(d, a[d])]
Hi == [d \in 1..3 |-> X(d, a[d] + b[d])]
Close(x, y) == RClose(x, y, RPow10(-12), RPow10(-13))
V(lo, hi) == Volume(geom, ndim, lo, hi)
Positive == RLt(0, V(Lo, Hi))
(* cutting the cell in direction m *)
Mid == [d \in 1..3 |-> RDiv(RAdd(Lo[d], Hi[d]), 2)]
Cut == (geom = "Cartesian" \/ m <= ndim) =>
    /\ Close(RAdd(V(Lo, [Hi EXCEPT ![m] = Mid[m]]), V([Lo EXCEPT ![m] = Mid[m]], Hi)), V(Lo, Hi))
    /\ Close(UpperFace(geom, ndim, Lo, [Hi EXCEPT ![m] = Mid[m]], m), FaceArea(geom, ndim, [Lo EXCEPT ![m] = Mid[m]], Hi, m))
    /\ \A d \in (1..ndim) \ {m} : Close(RAdd(FaceArea(geom, ndim, Lo, [Hi EXCEPT ![m] = Mid[m]], d), FaceArea(geom, ndim, [Lo EXCEPT ![m] = Mid[m]], Hi, d)), FaceArea(geom, ndim, Lo, Hi, d))
Out(d, wlo, whi) == RSub(RMul(whi, UpperFace(geom, ndim, Lo, Hi, d)), RMul(wlo, FaceArea(geom, ndim, Lo, Hi, d)))
Outflow == IF geom = "Cartesian" THEN \A d \in 1..3 : Close(Out(d, Lo[d], Hi[d]), V(Lo, Hi))
           ELSE Close(Out(1, Lo[1], Hi[1]), RMul(3, V(Lo, Hi)))
=============================================================================
