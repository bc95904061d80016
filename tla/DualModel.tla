----------------------------- MODULE DualModel -----------------------------
(***************************************************************************)
(* The two modification counters of the implementation refine DualView:    *)
(* after any sequence of accesses the counters tell which side is fresh,   *)
(* and a read returns the most recent write. Prints every sequence.        *)
(***************************************************************************)
EXTENDS DualView, TLC, Json
CONSTANTS Depth, Emitting
VARIABLES a, cd, ch, last, hist
vars == <<a, cd, ch, last, hist>>
N == 2
Ops == [side : Sides, mode : Modes] \cup [side : Sides, mode : {"s"}]
Max(x, y) == IF x > y THEN x ELSE y
Init == a = New(N) /\ cd = 0 /\ ch = 0 /\ last = [i \in 1..N |-> 0] /\ hist = <<>>
(* counters *)
Need(s) == IF s = "device" THEN cd < ch ELSE ch < cd
Do(o) == LET v == Len(hist) + 1 k == (Len(hist) % N) + 1 sync == o.mode # "w" /\ Need(o.side)
             cd1 == IF sync THEN 0 ELSE cd
             ch1 == IF sync THEN 0 ELSE ch
             m == Max(cd1, ch1) + 1
             writes == o.mode \in {"x", "w"}
         IN /\ a' = IF o.mode = "s" THEN Synchronised(a, o.side) ELSE Access(a, o.side, o.mode, v, k)
            /\ cd' = IF writes /\ o.side = "device" THEN m ELSE cd1
            /\ ch' = IF writes /\ o.side = "host" THEN m ELSE ch1
            /\ last' = CASE o.mode = "w" -> [i \in 1..N |-> v] [] o.mode = "x" -> [last EXCEPT ![k] = v] [] OTHER -> last
            /\ hist' = Append(hist, o)
Next == Len(hist) < Depth /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
CountersRefine == a.fresh = (IF cd = ch THEN "both" ELSE IF cd > ch THEN "device" ELSE "host")
ReadsLast == \A s \in Sides : Shown(a, s) = last
FreshIsLast == a.fresh # "both" => a[a.fresh] = last
BothAgree == a.fresh = "both" => a.host = a.device
Emit == Emitting /\ Len(hist) = Depth => PrintT(<<"CASE", ToJson(hist)>>)
=============================================================================
