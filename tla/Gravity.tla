------------------------------ MODULE Gravity ------------------------------
(***************************************************************************)
(* Gravity fields. A field is a record                                     *)
(*   [kind |-> "Uniform", g |-> <<gx, gy, gz>>],                           *)
(*   [kind |-> "Point_mass", M |-> central mass] or                        *)
(*   [kind |-> "Internal_mass", M |-> central mass].                       *)
(* Radii are the face coordinates r (a sequence over all cells, ghosts     *)
(* included) of the first direction; shells gives, for the cells of that   *)
(* direction, the density averaged over the whole shell.                   *)
(***************************************************************************)
EXTENDS Eos
Third(k) == RDiv(RMul(4, RPi), RMul(3, k))
RadiusC(r, i) == RDiv(RAdd(r[i], r[i + 1]), 2)
(* mass between two radii of density rho *)
Between(lo, hi, rho) == RMul(RDiv(RMul(RMul(4, RPi), RSub(Cub(hi), Cub(lo))), 3), rho)
(* mass inside the centre of cell i; cells up to ghost hold none *)
RECURSIVE BelowFace(_, _, _, _, _)
BelowFace(M, r, shells, ghost, i) == IF i <= ghost + 1 THEN R(M) ELSE TLCEval(RAdd(BelowFace(M, r, shells, ghost, i - 1), Between(r[i - 1], r[i], shells[i - 1])))
Enclosed(M, r, shells, ghost, i) == IF i <= ghost THEN R(M) ELSE RAdd(BelowFace(M, r, shells, ghost, i), Between(r[i], RadiusC(r, i), shells[i]))
Pull(mass, radius) == RNeg(RDiv(RMul(GravG, mass), Sqr(radius)))
(* the field on cell number i (from 1, ghosts included) of the first direction, component d *)
Felt(field, r, shells, ghost, i, d) ==
    CASE field.kind = "Uniform" -> R(field.g[d])
      [] d # 1 -> R(0)
      [] field.kind = "Point_mass" -> Pull(field.M, RadiusC(r, i))
      [] OTHER -> Pull(Enclosed(field.M, r, shells, ghost, i), RadiusC(r, i))
=============================================================================
