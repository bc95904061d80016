------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* The run parameters (P03): which setting each one is read from, of what  *)
(* type it is and what it is when the setting is absent or empty; and      *)
(* which condition is used on each border of the domain.                   *)
(* Sections and keys are written in lower case: they are matched without   *)
(* case.                                                                   *)
(***************************************************************************)
EXTENDS TypedValue

Row(f, s, k, t, d) == [f |-> f, s |-> s, k |-> k, t |-> t, d |-> d]
Table == <<
    Row("problem", "problem", "type", "text", "ShockTube"),
    Row("restart", "problem", "restart", "bool", "false"),
    Row("restart_file", "problem", "restart_file", "text", "None"),
    Row("rmax_shift", "problem", "rmax_shift", "real", "1e20"),
    Row("Nx0", "grid", "nx0_glob", "int", "0"),
    Row("Nx1", "grid", "nx1_glob", "int", "0"),
    Row("Nx2", "grid", "nx2_glob", "int", "0"),
    Row("grid_type", "grid", "type", "text", "Regular"),
    Row("Ng", "grid", "nghost", "int", "2"),
    Row("x0min", "grid", "x0min", "real", "0"),
    Row("x0max", "grid", "x0max", "real", "1"),
    Row("x1min", "grid", "x1min", "real", "0"),
    Row("x1max", "grid", "x1max", "real", "1"),
    Row("x2min", "grid", "x2min", "real", "0"),
    Row("x2max", "grid", "x2max", "real", "1"),
    Row("shift_grid", "grid", "shift_grid", "text", "Off"),
    Row("mpi_device_aware", "parallelization", "mpi_device_aware", "bool", "false"),
    Row("dims0", "parallelization", "mpi_dims_cart_x0", "int", "0"),
    Row("dims1", "parallelization", "mpi_dims_cart_x1", "int", "0"),
    Row("dims2", "parallelization", "mpi_dims_cart_x2", "int", "0"),
    Row("t_ini", "run", "t_ini", "real", "0"),
    Row("t_end", "run", "t_end", "real", "0.2"),
    Row("cfl", "run", "cfl", "real", "0.4"),
    Row("max_iter", "output", "max_iter", "int", "10000"),
    Row("iter_output_frequency", "output", "iter_frequency", "int", "0"),
    Row("time_output_frequency", "output", "time_frequency", "real", "0"),
    Row("time_first_output", "output", "time_first_output", "real", "first"),   \* start time + output period
    Row("directory", "output", "directory", "text", "."),
    Row("prefix", "output", "prefix", "text", "result"),
    Row("time_job", "output", "time_job", "int", "20"),
    Row("reconstruction_type", "hydro", "reconstruction", "text", "VanLeer"),
    Row("riemann_solver", "hydro", "riemann_solver", "text", "HLL"),
    Row("gx0", "gravity", "gx0", "real", "0"),
    Row("gx1", "gravity", "gx1", "real", "0"),
    Row("gx2", "gravity", "gx2", "real", "0"),
    Row("M", "gravity", "m", "real", "1"),
    Row("gamma", "perfect gas", "gamma", "real", "fivethirds"),
    Row("mu", "perfect gas", "mu", "real", "1"),
    Row("bc_choice", "boundary condition", "bc", "text", ""),
    Row("bc_priority", "boundary condition", "priority", "text", ""),
    Row("nfx", "passive scalar", "nfx", "int", "0"),
    Row("user_step", "user step", "user_step", "text", "Off"),
    Row("pressure_fix", "pressure fix", "pressure_fix", "text", "Off"),
    Row("eps_pf", "pressure fix", "eps_pf", "real", "0.000001") >>
Rows == 1..Len(Table)

(***************************************************************************)
(* Borders. keys is a function from the keys present in the file to their  *)
(* text; a border whose condition is given as empty has none. A border is  *)
(* <<direction, side>>, side 0 is the left one.                            *)
(***************************************************************************)
DirKey(d) == <<"BC_X0", "BC_X1", "BC_X2">>[d + 1]
FaceKey(d, s) == << <<"BC_X0_left", "BC_X0_right">>, <<"BC_X1_left", "BC_X1_right">>, <<"BC_X2_left", "BC_X2_right">> >>[d + 1][s + 1]
BorderCondition(keys, d, s) ==
    IF FaceKey(d, s) \in DOMAIN keys THEN keys[FaceKey(d, s)]
    ELSE IF DirKey(d) \in DOMAIN keys THEN keys[DirKey(d)]
    ELSE IF "BC" \in DOMAIN keys THEN keys["BC"] ELSE ""
Conditions == {"NullGradient", "Periodic", "Reflexive", "UserDefined"}
Borders(ndim) == (0..(ndim - 1)) \X {0, 1}
=============================================================================
