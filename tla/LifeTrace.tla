------------------------------ MODULE LifeTrace ------------------------------
(* The life of one run of the program, call by call: handles of the HDF5    *)
(* library the solver opens, uses and closes itself, the MPI environment,   *)
(* and at most one call made to fail. mpi is "before", "inside", "after".   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pos, open, mpi, failed, good
Init == c \in 1..Len(Cases) /\ pos = 1 /\ open = {} /\ mpi = "before" /\ failed = FALSE /\ good = TRUE
Step(e) ==
    CASE e.what = "open" ->
            /\ open' = IF e.ok THEN open \cup {e.id} ELSE open
            /\ failed' = (failed \/ ~e.ok)
            /\ good' = (good /\ ~failed /\ e.id \notin open)
            /\ mpi' = mpi
      [] e.what = "use" ->
            /\ failed' = (failed \/ ~e.ok)
            /\ good' = (good /\ ~failed /\ e.id \in open)
            /\ UNCHANGED <<open, mpi>>
      [] e.what = "close" ->
            /\ open' = open \ {e.id}
            /\ good' = (good /\ e.ok /\ e.id \in open)
            /\ UNCHANGED <<mpi, failed>>
      [] e.what = "mpi" /\ e.fn = "init" -> mpi' = "inside" /\ good' = (good /\ mpi = "before") /\ UNCHANGED <<open, failed>>
      [] OTHER -> mpi' = "after" /\ good' = (good /\ mpi = "inside" /\ open = {}) /\ UNCHANGED <<open, failed>>
Next == pos <= Len(Cases[c].events) /\ Step(Cases[c].events[pos]) /\ pos' = pos + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, pos, open, mpi, failed, good>>
Done == pos > Len(Cases[c].events)
Conforms ==
    LET r == Cases[c] IN
    /\ good \/ (PrintT(<<"REJECTED", c, pos, r.what, r.events[pos - 1]>>) /\ FALSE)
    /\ Done => ( /\ open = {} /\ mpi # "inside"
                 /\ (r.usesmpi => mpi = "after")
                 /\ (failed => r.rc = "1")
                 /\ (r.expect = "ok" /\ ~failed => r.rc = "0")
                 /\ (r.expect = "error" => r.rc = "1" /\ r.message)
                 /\ (failed => r.message) )
            \/ (PrintT(<<"REJECTED", c, r.what, r.rc, open, mpi, failed>>) /\ FALSE)
=============================================================================
