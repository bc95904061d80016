-------------------------------- MODULE Loops --------------------------------
(* Parallel loops whose iterations run in any order, or at the same time.     *)
(* acc is a sequence with one entry per element that some iteration writes:   *)
(* <<writers, readers>>, sequences of iteration numbers.                      *)
EXTENDS Integers, Sequences
(* no iteration writes or reads what another one writes *)
FreeElement(e) == Len(e[1]) = 1 /\ \A k \in DOMAIN e[2] : e[2][k] = e[1][1]
Free(acc) == \A k \in DOMAIN acc : FreeElement(acc[k])
=============================================================================
