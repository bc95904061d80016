------------------------------ MODULE Choices ------------------------------
(* The choices a user makes by name and the names there are.                *)
Kinds == {"reconstruction", "riemann_solver", "grid", "user_step", "border"}
Names(kind) ==
    CASE kind = "reconstruction" -> {"Constant", "VanLeer", "Minmod", "VanAlbada"}
      [] kind = "riemann_solver" -> {"HLL", "HLLC", "Low Mach"}
      [] kind = "grid"           -> {"Regular", "UserDefined"}
      [] kind = "user_step"      -> {"Off", "Heat_nickel", "UserDefined"}
      [] kind = "border"         -> {"NullGradient", "Periodic", "Reflexive", "UserDefined"}
(* a choice is usable when its name is one of these, letter for letter *)
Usable(kind, name) == name \in Names(kind)
=============================================================================
