---------------------------- MODULE DomainTrace ----------------------------
(* Recorded decompositions: one record per grid with the blocks of all its   *)
(* processes.                                                                *)
EXTENDS Domain, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE
Conforms ==
    LET r == Cases[c] B == r.blocks IN
    IF r.refused THEN r.mayrefuse \/ Say("refused", r.asked)
    ELSE /\ Within(B, r.n) \/ Say("a block leaves the box", B)
         /\ OneOwner(B, r.n) \/ Say("a cell has no owner or two", B)
         /\ Balanced(B) \/ Say("blocks are not balanced", B)
         /\ Ordered(B) \/ Say("coordinates do not follow the cells", B)
         /\ BordersRight(B) \/ Say("borders", B)
         /\ LayoutObeyed(B, r.asked, r.ndim) \/ Say("layout", B)
         /\ \A q \in DOMAIN B : \A d \in Dirs : (B[q].local[d] = Width(B[q], d) /\ B[q].wg[d] = Width(B[q], d) + 2 * Layers(r.ndim, d, r.ng) /\ B[q].nghost[d] = Layers(r.ndim, d, r.ng)) \/ Say("local sizes", B[q])
=============================================================================
