----------------------------- MODULE SpaceTrace -----------------------------
(* Whole runs in which every access of host code to device memory, and of    *)
(* kernels to host memory, is an event: a run without such events ends as    *)
(* it should.                                                                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Conforms == LET r == Cases[c] IN (~r.violation /\ r.rc = r.expect /\ r.files >= 1) \/ (PrintT(<<"REJECTED", c, r.what, r.rc, r.err>>) /\ FALSE)
=============================================================================
