----------------------------- MODULE AccessTrace -----------------------------
(* Recorded parallel loops of the real program: what each iteration accessed. *)
EXTENDS Loops, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE
Conforms == LET r == Cases[c] IN
    \A k \in DOMAIN r.loops : LET l == r.loops[k] IN
        \A e \in DOMAIN l.written : FreeElement(l.written[e]) \/ Say("iterations meet in an element", <<r.what, l.loop, l.written[e]>>)
=============================================================================
