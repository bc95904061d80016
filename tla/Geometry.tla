------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Volumes and face areas of the cells of a grid, from their face          *)
(* coordinates. Spherical: radius, polar angle, azimuth; directions that   *)
(* are not simulated are integrated over the whole sphere.                 *)
(* A cell is given by its lower and upper coordinates lo, hi (sequences of *)
(* three reals). FaceArea is that of the lower face; the upper face of a   *)
(* cell is the lower face of its neighbour.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, RealArith
Geometries == {"Cartesian", "Spherical"}
Sq(x) == RMul(x, x)
Cube(x) == RMul(x, RMul(x, x))
Len3(lo, hi, d) == RSub(hi[d], lo[d])
DCos(lo, hi) == RSub(RCos(lo[2]), RCos(hi[2]))
(* solid angle of the cell *)
Omega(ndim, lo, hi) == IF ndim = 1 THEN RMul(4, RPi) ELSE IF ndim = 2 THEN RMul(RMul(2, RPi), DCos(lo, hi)) ELSE RMul(DCos(lo, hi), Len3(lo, hi, 3))
(* width in azimuth *)
Phi(ndim, lo, hi) == IF ndim = 2 THEN RMul(2, RPi) ELSE Len3(lo, hi, 3)
Volume(geom, ndim, lo, hi) ==
    IF geom = "Cartesian" THEN RMul(Len3(lo, hi, 1), RMul(Len3(lo, hi, 2), Len3(lo, hi, 3)))
    ELSE RDiv(RMul(RSub(Cube(hi[1]), Cube(lo[1])), Omega(ndim, lo, hi)), 3)
(* area of the face at coordinate lo[d] *)
FaceArea(geom, ndim, lo, hi, d) ==
    IF geom = "Cartesian" THEN CASE d = 1 -> RMul(Len3(lo, hi, 2), Len3(lo, hi, 3)) [] d = 2 -> RMul(Len3(lo, hi, 1), Len3(lo, hi, 3)) [] OTHER -> RMul(Len3(lo, hi, 1), Len3(lo, hi, 2))
    ELSE LET half == RDiv(RSub(Sq(hi[1]), Sq(lo[1])), 2) IN
         CASE d = 1 -> RMul(Sq(lo[1]), Omega(ndim, lo, hi))
           [] d = 2 -> RMul(RMul(half, RSin(lo[2])), Phi(ndim, lo, hi))
           [] OTHER -> RMul(half, Len3(lo, hi, 2))
(* the same face seen from the other side *)
UpperFaceArea(geom, ndim, lo, hi, d) == FaceArea(geom, ndim, [lo EXCEPT ![d] = hi[d]], [hi EXCEPT ![d] = RAdd(hi[d], RSub(hi[d], lo[d]))], d)
UpperFace(geom, ndim, lo, hi, d) ==
    IF geom = "Cartesian" THEN FaceArea(geom, ndim, lo, hi, d)
    ELSE LET half == RDiv(RSub(Sq(hi[1]), Sq(lo[1])), 2) IN
         CASE d = 1 -> RMul(Sq(hi[1]), Omega(ndim, lo, hi))
           [] d = 2 -> RMul(RMul(half, RSin(hi[2])), Phi(ndim, lo, hi))
           [] OTHER -> RMul(half, Len3(lo, hi, 2))
(* physical widths used by the time step: dx, r dtheta, r sin(theta) dphi at the centre *)
Centre(lo, hi, d) == RDiv(RAdd(lo[d], hi[d]), 2)
=============================================================================
