------------------------------ MODULE IniModel ------------------------------
(***************************************************************************)
(* Design check of IniGrammar: every file of up to MaxLines lines over an  *)
(* alphabet of line shapes. `hist' is the file read so far. Every state is *)
(* also printed with the settings it must give: the check replays each of  *)
(* these files into the real reader.                                       *)
(***************************************************************************)
EXTENDS IniGrammar, TLC, Json
CONSTANTS Alphabet, MaxLines, MinEmit
VARIABLES hist, st, text

Yes(s, n) == TRUE
Init == hist = <<>> /\ st = InitState /\ text = <<>>
Next == /\ Len(hist) < MaxLines
        /\ \E i \in 1..Len(Alphabet) :
             /\ hist' = Append(hist, i)
             /\ st' = ReadLine(st, Alphabet[i], Yes)
             /\ text' = text \o Alphabet[i]
Spec == Init /\ [][Next]_<<hist, st, text>>

RECURSIVE ReadAll(_, _, _)
ReadAll(s, h, i) == IF i > Len(h) THEN s ELSE ReadAll(ReadLine(s, Alphabet[h[i]], Yes), h, i + 1)
Without(h, k) == SubSeq(h, 1, k - 1) \o SubSeq(h, k + 1, Len(h))
RECURSIVE StateBefore(_, _, _)
StateBefore(s, k, i) == IF i >= k THEN s ELSE StateBefore(ReadLine(s, Alphabet[hist[i]], Yes), k, i + 1)
KindAt(k) == LET s == StateBefore(InitState, k, 1) IN Kind(Alphabet[hist[k]], s.lineno + 1, s.prev)

(* the reported line is the first that fits nothing, and only then *)
FirstBadLine ==
    LET bad == {k \in 1..Len(hist) : KindAt(k) = "bad"} IN
    IF bad = {} THEN st.err = 0 ELSE st.err = CHOOSE k \in bad : \A j \in bad : k <= j
(* a line that fits nothing, a comment or a blank line affects no other line
   (k > 1: the first line may hold the byte-order mark) *)
NoCollateral ==
    \A k \in 2..Len(hist) : KindAt(k) \in {"bad", "comment", "blank"} =>
        LET r == ReadAll(InitState, Without(hist, k), 1)
        IN r.calls = st.calls /\ r.section = st.section /\ r.prev = st.prev
(* a setting belongs to the last section line before it *)
CallsCount == Len(st.calls) = Len(SelectSeq([k \in 1..Len(hist) |-> KindAt(k)], LAMBDA x : x \in {"setting", "continuation"}))
ValuesTrimmed == \A i \in 1..Len(st.calls) : st.calls[i][3] = Trim(st.calls[i][3])
Emit == Len(hist) >= MinEmit => PrintT(<<"CASE", ToJson([text |-> text, err |-> st.err, calls |-> st.calls])>>)
=============================================================================
