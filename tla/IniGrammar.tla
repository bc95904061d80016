----------------------------- MODULE IniGrammar -----------------------------
(***************************************************************************)
(* The grammar of the input files (P01), one line at a time. Text is a     *)
(* sequence of byte codes. The reader's state is a record:                 *)
(*   lineno   lines read so far                                            *)
(*   section  the section in force                                         *)
(*   prev     name of the last setting (<<>>: nothing can be continued)    *)
(*   err      number of the first line that fits nothing, 0 without one    *)
(*   calls    settings found so far: <<section, name, value>>              *)
(***************************************************************************)
EXTENDS Naturals, Sequences

MaxLine == 199      \* bytes of a line read at once
MaxName == 49       \* bytes kept of a section and of the name to continue

NL == 10
SpaceCodes == {9, 10, 11, 12, 13, 32}
Semi == 59   Hash == 35   Open == 91   Close == 93   Eq == 61   Colon == 58
BOM == <<239, 187, 191>>

IsSpace(c) == c \in SpaceCodes

RECURSIVE FirstIn(_, _, _), FirstNotIn(_, _, _), LastNotIn(_, _, _)
(* index of the first byte in / not in S from i on, of the last one not in S up to i *)
FirstIn(s, i, S) == IF i > Len(s) THEN i ELSE IF s[i] \in S THEN i ELSE FirstIn(s, i + 1, S)
FirstNotIn(s, i, S) == IF i > Len(s) THEN i ELSE IF s[i] \notin S THEN i ELSE FirstNotIn(s, i + 1, S)
LastNotIn(s, i, S) == IF i < 1 THEN 0 ELSE IF s[i] \notin S THEN i ELSE LastNotIn(s, i - 1, S)

LTrim(s) == SubSeq(s, FirstNotIn(s, 1, SpaceCodes), Len(s))
RTrim(s) == SubSeq(s, 1, LastNotIn(s, Len(s), SpaceCodes))
Trim(s) == RTrim(LTrim(s))
Cut(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s

(* an inline comment starts at a ';' right after white space *)
CommentAt(s, i) == i > 1 /\ s[i] = Semi /\ IsSpace(s[i - 1])
RECURSIVE StopAt(_, _, _)
(* first index of s that is in chars or starts an inline comment *)
StopAt(s, i, chars) == IF i > Len(s) \/ s[i] \in chars \/ CommentAt(s, i) THEN i ELSE StopAt(s, i + 1, chars)
WithoutComment(s) == SubSeq(s, 1, StopAt(s, 1, {}) - 1)

(***************************************************************************)
(* What a line is.                                                         *)
(***************************************************************************)
Body(line, lineno) ==
    IF lineno = 1 /\ Len(line) >= 3 /\ SubSeq(line, 1, 3) = BOM THEN SubSeq(line, 4, Len(line)) ELSE line

Indented(line, lineno) ==
    LET b == Body(line, lineno) IN Len(b) < Len(line) \/ (Len(b) > 0 /\ IsSpace(b[1]))

Kind(line, lineno, prev) ==
    LET t == Trim(Body(line, lineno)) IN
    IF t = <<>> THEN "blank"
    ELSE IF t[1] \in {Semi, Hash} THEN "comment"
    ELSE IF prev # <<>> /\ Indented(line, lineno) THEN "continuation"
    ELSE IF t[1] = Open THEN
        LET rest == SubSeq(t, 2, Len(t))
            e == StopAt(rest, 1, {Close})
        IN IF e <= Len(rest) /\ rest[e] = Close THEN "section" ELSE "bad"
    ELSE LET e == StopAt(t, 1, {Eq, Colon}) IN
        IF e <= Len(t) /\ t[e] \in {Eq, Colon} THEN "setting" ELSE "bad"

SectionOf(t) == LET rest == SubSeq(t, 2, Len(t)) IN SubSeq(rest, 1, StopAt(rest, 1, {Close}) - 1)
NameOf(t) == RTrim(SubSeq(t, 1, StopAt(t, 1, {Eq, Colon}) - 1))
ValueOf(t) == Trim(WithoutComment(SubSeq(t, StopAt(t, 1, {Eq, Colon}) + 1, Len(t))))

InitState == [lineno |-> 0, section |-> <<>>, prev |-> <<>>, err |-> 0, calls |-> <<>>]

(* Accepts(section, name): whether the consumer accepts that setting *)
ReadLine(st, line, Accepts(_, _)) ==
    LET n == st.lineno + 1
        k == Kind(line, n, st.prev)
        t == Trim(Body(line, n))
        Failed(bad) == IF bad /\ st.err = 0 THEN n ELSE st.err
    IN CASE k \in {"blank", "comment"} -> [st EXCEPT !.lineno = n]
         [] k = "bad" -> [st EXCEPT !.lineno = n, !.err = Failed(TRUE)]
         [] k = "section" -> [st EXCEPT !.lineno = n, !.section = Cut(SectionOf(t), MaxName), !.prev = <<>>]
         [] k = "continuation" ->
              [st EXCEPT !.lineno = n, !.calls = Append(@, <<st.section, st.prev, t>>),
                         !.err = Failed(~Accepts(st.section, st.prev))]
         [] k = "setting" ->
              [st EXCEPT !.lineno = n, !.prev = Cut(NameOf(t), MaxName),
                         !.calls = Append(@, <<st.section, NameOf(t), ValueOf(t)>>),
                         !.err = Failed(~Accepts(st.section, NameOf(t)))]

(***************************************************************************)
(* Splitting of the text into lines, at most MaxLine bytes at a time.      *)
(***************************************************************************)
LineEnd(text, pos) ==
    LET last == IF pos + MaxLine - 1 < Len(text) THEN pos + MaxLine - 1 ELSE Len(text)
        nl == FirstIn(SubSeq(text, pos, last), 1, {NL})
    IN IF pos + nl - 1 <= last THEN pos + nl - 1 ELSE last

(***************************************************************************)
(* Lookup: sections and names match without case, the values of one name   *)
(* are joined with a newline.                                              *)
(***************************************************************************)
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerSeq(s) == [i \in 1..Len(s) |-> Lower(s[i])]
RECURSIVE Joined(_, _, _, _, _)
(* <<found, value>> *)
Joined(calls, i, s, n, acc) ==
    IF i > Len(calls) THEN acc
    ELSE IF LowerSeq(calls[i][1]) = LowerSeq(s) /\ LowerSeq(calls[i][2]) = LowerSeq(n)
         THEN Joined(calls, i + 1, s, n, <<TRUE, IF acc[2] # <<>> THEN acc[2] \o <<NL>> \o calls[i][3] ELSE calls[i][3]>>)
         ELSE Joined(calls, i + 1, s, n, acc)
Lookup(calls, s, n) == Joined(calls, 1, s, n, <<FALSE, <<>>>>)
=============================================================================
