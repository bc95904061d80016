----------------------------- MODULE StepPhases -----------------------------
(* The phases of one pass of the time loop and what they do to the fields.   *)
(* Every change of the interior gives it a new version; ghost cells and      *)
(* primitive variables carry the version they were made from.                *)
EXTENDS Naturals
CONSTANTS MaxSteps, MayShift
VARIABLES pc, n, fields, ghosts, prims, calls, shifted
vars == <<pc, n, fields, ghosts, prims, calls, shifted>>
Init == pc = "head" /\ n = 0 /\ fields = 1 /\ ghosts = 1 /\ prims = 1 /\ calls = 0 /\ shifted = FALSE
Keep(v) == UNCHANGED v
Update  == pc = "head" /\ n < MaxSteps /\ fields' = fields + 1 /\ pc' = "user" /\ Keep(<<n, ghosts, prims, calls, shifted>>)
User    == pc = "user" /\ fields' \in {fields, fields + 1} /\ calls' = calls + 1 /\ pc' = "borders" /\ Keep(<<n, ghosts, prims, shifted>>)
Borders == pc = "borders" /\ ghosts' = fields /\ pc' = "shift" /\ Keep(<<n, fields, prims, calls, shifted>>)
Shift   == pc = "shift" /\ MayShift /\ ~shifted /\ fields' = fields + 1 /\ shifted' = TRUE /\ pc' = "borders" /\ Keep(<<n, ghosts, prims, calls>>)
Convert == pc = "shift" /\ prims' = fields /\ pc' = "time" /\ Keep(<<n, fields, ghosts, calls, shifted>>)
Advance == pc = "time" /\ n' = n + 1 /\ pc' = "head" /\ shifted' = FALSE /\ Keep(<<fields, ghosts, prims, calls>>)
Next == Update \/ User \/ Borders \/ Shift \/ Convert \/ Advance
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* a step starts from ghosts and primitive variables made from the current fields *)
Fresh == pc = "head" => ghosts = fields /\ prims = fields
OncePerStep == pc = "head" => calls = n
Ends == <>(n = MaxSteps)
=============================================================================
