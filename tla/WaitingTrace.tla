---------------------------- MODULE WaitingTrace ----------------------------
(***************************************************************************)
(* Recorded communication of real runs: progs is what each process called. *)
(* Whatever is buffered and whoever is faster, nobody waits for ever: all  *)
(* processes make the same collective calls, each message finds a          *)
(* counterpart that is large enough, and everybody comes to the end        *)
(* (MPI_Finalize), also when the run is refused or stopped.                *)
(***************************************************************************)
EXTENDS Waiting, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Known == [i \in DOMAIN Cases |-> Tables(Cases[i].progs)]
VARIABLES c, pc
Prog == Cases[c].progs
T == Known[c]
Init == c \in 1..Len(Cases) /\ pc = [q \in DOMAIN Cases[c].progs |-> 1]
\* as long as everybody can go on they do so together, at most Stride calls at a time
RECURSIVE Far(_, _)
Far(x, n) == IF n = 0 THEN x ELSE LET y == Sweep(Prog, T, x) IN IF y = x THEN x ELSE Far(y, n - 1)
Next == LET y == Far(pc, 50) IN y # pc /\ pc' = y /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, pc>>
Say(what, x) == PrintT(<<"REJECTED", c, Cases[c].what, what, x>>) /\ FALSE
Agreed == \A p \in DOMAIN Prog : \A i \in DOMAIN Prog[p] :
    /\ SameCalls(Prog, T, p, i) \/ Say("collective calls differ", <<p - 1, i, Prog[p][i]>>)
    /\ Delivered(Prog, T, p, i) \/ Say("message without counterpart", <<p - 1, i, Prog[p][i]>>)
    /\ LargeEnough(Prog, T, p, i) \/ Say("message too long for its receiver", <<p - 1, i, Prog[p][i]>>)
Final(p) == IF Prog[p] = <<>> THEN "nothing" ELSE LET o == Prog[p][Len(Prog[p])] IN IF o.k = "coll" THEN o.sig ELSE o.k
Conforms ==
    /\ pc = [q \in DOMAIN Prog |-> 1] => Agreed
    /\ Moves(Prog, T, pc) = {} => /\ \A p \in DOMAIN Prog : Over(Prog, pc, p) \/ Say("waits for ever", <<p - 1, pc[p], Prog[p][pc[p]]>>)
                                  /\ \A p \in DOMAIN Prog : Final(p) = Cases[c].last \/ Say("does not come to the end", <<p - 1, Final(p)>>)
=============================================================================
