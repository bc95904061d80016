----------------------------- MODULE DualTrace -----------------------------
(* Recorded accesses to real mirrored arrays through any handle. Operations  *)
(* on handles (copy, constant view, move, new array) change which array a    *)
(* handle names.                                                             *)
EXTENDS DualView, Integers, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pos, arrays, names, ok
vars == <<c, pos, arrays, names, ok>>
Init == c \in 1..Len(Cases) /\ pos = 1 /\ arrays = <<>> /\ names = [h \in 0..7 |-> 0] /\ ok = TRUE
(* transfers between the sides made by this operation *)
Moves(e) == e.h2d + e.d2h
AccessOk(a, e) ==
    /\ e.mode \in {"r", "x"} => e.seen = Shown(a, e.side)
    /\ ~Stale(a, e.side) => Moves(e) = 0
    /\ Moves(e) <= 1
    /\ e.shared => Moves(e) = 0
Step(e) ==
    CASE e.op = "new" -> arrays' = Append(arrays, New(e.n)) /\ names' = [names EXCEPT ![e.h] = Len(arrays) + 1] /\ ok' = TRUE
      [] e.op = "alias" -> names' = [names EXCEPT ![e.h] = names[e.from]] /\ arrays' = arrays /\ ok' = (Moves(e) = 0)
      [] e.op = "move" -> names' = [names EXCEPT ![e.h] = names[e.from], ![e.from] = 0] /\ arrays' = arrays /\ ok' = (Moves(e) = 0)
      [] e.op = "access" -> LET n == names[e.h] IN
            /\ ok' = AccessOk(arrays[n], e)
            /\ arrays' = [arrays EXCEPT ![n] = Access(@, e.side, e.mode, e.v, e.k)] /\ names' = names
      [] e.op = "sync" -> LET n == names[e.h] IN
            /\ ok' = ((~Stale(arrays[n], e.side) => Moves(e) = 0) /\ Moves(e) <= 1)
            /\ arrays' = [arrays EXCEPT ![n] = Synchronised(@, e.side)] /\ names' = names
      [] e.op = "clear" -> arrays' = [arrays EXCEPT ![names[e.h]].fresh = "both"] /\ names' = names /\ ok' = (Moves(e) = 0)
      [] e.op = "info" -> LET n == Len(arrays[names[e.h]].host) IN
            /\ ok' = (e.size = n /\ e.extent = n /\ e.extent_int = n /\ e.span = n /\ e.stride = 1 /\ e.label = "array" /\ e.allocated /\ Moves(e) = 0) /\ UNCHANGED <<arrays, names>>
      [] e.op = "need" -> LET a == arrays[names[e.h]] IN
            /\ ok' = (e.host = Stale(a, "host") /\ e.device = Stale(a, "device") /\ Moves(e) = 0) /\ UNCHANGED <<arrays, names>>
Next == ok /\ pos <= Len(Cases[c].ops) /\ Step(Cases[c].ops[pos]) /\ pos' = pos + 1 /\ c' = c
Spec == Init /\ [][Next]_vars
Conforms == ok \/ (PrintT(<<"REJECTED", c, pos - 1, Cases[c].ops[pos - 1], arrays>>) /\ FALSE)
=============================================================================
