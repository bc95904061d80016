---------------------------- MODULE WaitingModel ----------------------------
(***************************************************************************)
(* All programs up to a length for N processes in a ring, and the solver's *)
(* own pattern on small layouts, under every schedule.                     *)
(***************************************************************************)
EXTENDS Waiting
CONSTANTS N, MaxLen, Layouts, Rounds
W == [x \in 1..N |-> x - 1]
All == [x \in 1..N |-> x - 1]
Coll(n, sig) == [k |-> "coll", comm |-> "world", members |-> [x \in 1..n |-> x - 1], sig |-> sig]
Msg(k, id, peer, tag) == [k |-> k, id |-> id, comm |-> "world", peer |-> peer, tag |-> tag, bytes |-> 8]
Wait(ids) == [k |-> "wait", ids |-> ids]
Words == {"bar", "send", "recv", "both", "post", "late"}
\* h: messages so far
Expand(p, w, h) ==
    LET right == (p + 1) % N left == (p + N - 1) % N IN
    CASE w = "bar" -> <<Coll(N, "barrier")>>
      [] w = "send" -> <<Msg("s", h + 1, right, 0), Wait(<<h + 1>>)>>
      [] w = "recv" -> <<Msg("r", h + 1, left, 0), Wait(<<h + 1>>)>>
      [] w = "both" -> <<Msg("s", h + 1, right, 0), Msg("r", h + 2, left, 0), Wait(<<h + 1, h + 2>>)>>
      [] w = "post" -> <<Msg("s", h + 1, right, 0)>>          \* and never waits
      [] w = "late" -> IF h = 0 THEN <<>> ELSE <<Wait([x \in 1..h |-> x])>>   \* waits for all so far
Messages(w) == CASE w \in {"send", "recv", "post"} -> 1 [] w = "both" -> 2 [] OTHER -> 0
RECURSIVE Build(_, _, _)
Build(p, ws, h) == IF ws = <<>> THEN <<>> ELSE Expand(p, Head(ws), h) \o Build(p, Tail(ws), h + Messages(Head(ws)))
Texts == UNION {[1..n -> Words] : n \in 0..MaxLen}

\* the solver: global minimum, then every face of every direction in turn, then the collective output
Coord(L, r) == <<r \div (L[2] * L[3]), (r \div L[3]) % L[2], r % L[3]>>
Rank(L, x) == x[1] * L[2] * L[3] + x[2] * L[3] + x[3]
Shift(L, r, d, by) == LET x == Coord(L, r) IN Rank(L, [x EXCEPT ![d] = (@ + by + L[d]) % L[d]])
RECURSIVE Faces(_, _, _, _)
Faces(L, r, f, h) == IF f > 6 THEN <<>> ELSE LET d == (f + 1) \div 2 by == IF f % 2 = 1 THEN -1 ELSE 1 IN
    <<Msg("s", h + 1, Shift(L, r, d, by), d), Msg("r", h + 2, Shift(L, r, d, -by), d), Wait(<<h + 1, h + 2>>)>> \o Faces(L, r, f + 1, h + 2)
RECURSIVE Solver(_, _, _, _)
Solver(L, r, k, h) == IF k = 0 THEN <<Coll(L[1] * L[2] * L[3], "finalize")>> ELSE <<Coll(L[1] * L[2] * L[3], "min")>> \o Faces(L, r, 1, h) \o Solver(L, r, k - 1, h + 12)
SolverOf(L) == [q \in 1..(L[1] * L[2] * L[3]) |-> Solver(L, q - 1, Rounds, 0)]

VARIABLES prog, kind, pc
vars == <<prog, kind, pc>>
Init == /\ \/ \E t \in [1..N -> Texts] : prog = [q \in 1..N |-> Build(q - 1, t[q], 0)] /\ kind = IF \A q \in 1..N : t[q] = t[1] /\ \A i \in DOMAIN t[q] : t[q][i] \in {"bar", "both"} THEN "alike" ELSE "any"
           \/ \E L \in Layouts : prog = SolverOf(L) /\ kind = "solver"
        /\ pc = [q \in DOMAIN prog |-> 1]
T == Tables(prog)
Step(p) == /\ p \in Moves(prog, T, pc) /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED <<prog, kind>>
Next == \E p \in DOMAIN prog : Step(p)
Spec == Init /\ [][Next]_vars
RECURSIVE Fix(_)
Fix(x) == LET y == Sweep(prog, T, x) IN IF y = x THEN x ELSE Fix(y)
Stuck == Moves(prog, T, pc) = {}
Finished == \A p \in DOMAIN prog : Over(prog, pc, p)
\* one schedule speaks for all
OneEnd == Stuck => pc = Fix([q \in DOMAIN prog |-> 1])
Monotone == \A p \in Moves(prog, T, pc) : \A q \in Moves(prog, T, pc) \ {p} : q \in Moves(prog, T, [pc EXCEPT ![p] = @ + 1])
\* equal programs of barriers and shifts never block; neither does the solver
NeverWaits == kind \in {"alike", "solver"} /\ Stuck => Finished
AllMet == kind \in {"alike", "solver"} => \A p \in DOMAIN prog : \A i \in DOMAIN prog[p] : Delivered(prog, T, p, i) /\ SameCalls(prog, T, p, i)
\* a ring of blocking sends does block (so the question is not void)
Ring == [q \in 1..N |-> Build(q - 1, <<"send", "recv">>, 0)]
RECURSIVE FixOf(_, _, _)
FixOf(P, t, x) == LET y == Sweep(P, t, x) IN IF y = x THEN x ELSE FixOf(P, t, y)
ASSUME N > 1 => FixOf(Ring, Tables(Ring), [q \in 1..N |-> 1]) = [q \in 1..N |-> 2]
=============================================================================
