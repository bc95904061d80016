------------------------------ MODULE DualView ------------------------------
(***************************************************************************)
(* A mirrored array: two copies of the same elements, of which at least    *)
(* one is up to date. Any handle (copy, constant view, moved-to object)    *)
(* names the array, not a state of its own.                                *)
(*   fresh: "both", "host" or "device" - the side(s) that are up to date.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Sides == {"host", "device"}
Modes == {"r", "x", "w"} (* read, read-write, overwrite *)
Other(s) == IF s = "host" THEN "device" ELSE "host"
New(n) == [host |-> [i \in 1..n |-> 0], device |-> [i \in 1..n |-> 0], fresh |-> "both"]
Stale(a, s) == a.fresh = Other(s)
Synchronised(a, s) == IF Stale(a, s) THEN [a EXCEPT ![s] = a[Other(s)], !.fresh = "both"] ELSE a
(* reading shows this *)
Shown(a, s) == Synchronised(a, s)[s]
(* overwriting gives every element the value v; read-write changes element k only *)
Access(a, s, mode, v, k) ==
    CASE mode = "r" -> Synchronised(a, s)
      [] mode = "x" -> [Synchronised(a, s) EXCEPT ![s] = [@ EXCEPT ![k] = v], !.fresh = s]
      [] mode = "w" -> [a EXCEPT ![s] = [i \in DOMAIN @ |-> v], !.fresh = s]
=============================================================================
