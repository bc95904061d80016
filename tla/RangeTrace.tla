----------------------------- MODULE RangeTrace -----------------------------
(* Recorded loops: the cells each visited, with the number of visits.        *)
EXTENDS Domain, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE
Conforms ==
    LET r == Cases[c] IN
    IF ~RangeUsable(r.lo, r.hi) \/ r.k > r.ng THEN r.refused \/ Say("not refused", r)
    ELSE /\ ~r.refused \/ Say("refused", r)
         /\ ~r.outside \/ Say("outside", r)
         /\ \A d \in Dirs : r.nghost[d] = Layers(r.ndim, d, r.ng) \/ Say("ghost layers", r.nghost)
         /\ LET V == {<<v[1], v[2], v[3]>> : v \in {r.visits[i] : i \in 1..Len(r.visits)}}
                E == Enlarged(r.lo, r.hi, r.ndim, r.k)
            IN /\ V = E \/ Say("cells visited", <<V \ E, E \ V>>)
               /\ (\A i \in 1..Len(r.visits) : r.visits[i][4] = 1) \/ Say("visited more than once", r)
=============================================================================
