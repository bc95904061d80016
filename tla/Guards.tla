------------------------------- MODULE Guards -------------------------------
(***************************************************************************)
(* Scoped owners of handles of another library (P28). A script is a        *)
(* sequence of letters: o, b, c, z construct an owner of a valid handle    *)
(* (c: its close function reports failure, z: the handle is 0); n, m: the  *)
(* open failed (negative handle), f: no close function; e leaves the       *)
(* innermost scope; t throws. The events of a run are what is observed:    *)
(* <<"got", id>> when an owner exists, <<function, id>> when closed.       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC

Valid == {"o", "b", "c", "z"}
Broken == {"n", "m", "f"}
CloseOf(l) == CASE l = "b" -> "b" [] l = "c" -> "c" [] OTHER -> "a"

(* a run in progress *)
Start == [stack |-> <<>>, next |-> 7, events |-> <<>>, end |-> "running"]
RECURSIVE Unwind(_, _)
(* closes every owner, innermost first *)
Unwind(stack, events) ==
    IF stack = <<>> THEN events
    ELSE Unwind(SubSeq(stack, 1, Len(stack) - 1), Append(events, stack[Len(stack)]))
Finish(s, how) == [s EXCEPT !.stack = <<>>, !.events = Unwind(s.stack, s.events), !.end = how]

Do(s, l) ==
    CASE l \in Valid ->
            LET id == IF l = "z" THEN 0 ELSE s.next IN
            [s EXCEPT !.next = IF l = "z" THEN @ ELSE @ + 1,
                      !.stack = Append(@, <<CloseOf(l), id>>),
                      !.events = Append(@, <<"got", id>>)]
      [] l \in Broken -> Finish(s, "error")
      [] l = "t" -> Finish(s, "scripted")
      [] l = "e" -> IF s.stack = <<>> THEN Finish(s, "ok")
                    ELSE [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1), !.events = Append(@, s.stack[Len(s.stack)])]

(***************************************************************************)
(* A dataset of given extents (<<>> for a scalar, "none" when the name is  *)
(* no dataset) is accepted exactly when it is what was expected.           *)
(***************************************************************************)
Accepted(actual, expected) == actual = expected /\ expected # <<>>

(***************************************************************************)
(* Summary lines: the name followed by dots on 40 columns, dots followed   *)
(* by the value on 40 columns; longer texts are not cut.                   *)
(***************************************************************************)
Dots(n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> 46]
SummaryLine(name, value) == name \o Dots(40 - Len(name)) \o Dots(40 - Len(value)) \o value \o <<10>>
=============================================================================
