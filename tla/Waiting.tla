------------------------------ MODULE Waiting ------------------------------
(***************************************************************************)
(* Processes that communicate. The program of a process is the sequence of *)
(* its calls:                                                              *)
(*   [k |-> "coll", comm, members, sig]  a collective call: it ends when   *)
(*        every member has made its call with the same number on comm      *)
(*        (nothing is assumed to be buffered, every collective may be a    *)
(*        barrier); sig is what all members must agree on                  *)
(*   [k |-> "s"/"r", id, comm, peer, tag, bytes]  a message offered or     *)
(*        awaited; the call itself does not block                          *)
(*   [k |-> "wait", ids]  ends when each of these messages has met its     *)
(*        counterpart: the message with the same number on the same        *)
(*        channel (from, to, tag), offered by the peer. Nothing is         *)
(*        buffered, so a send waits for its receiver.                      *)
(* Processes are 0..N-1; Prog[p+1] is the program of process p.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Channel(p, o) == IF o.k = "coll" THEN <<"c", o.comm, 0, 0, 0>>
                 ELSE IF o.k = "s" THEN <<"s", o.comm, p, o.peer, o.tag>>
                 ELSE <<"r", o.comm, o.peer, p, o.tag>>
Counterpart(ch) == <<IF ch[1] = "s" THEN "r" ELSE "s", ch[2], ch[3], ch[4], ch[5]>>

\* at: where the calls on each channel are; ord: the number of each call on its channel; half: where message id is
Table(p, prog) ==
    LET Add(acc, i) ==
            LET o == prog[i] ch == Channel(p, o) old == DOMAIN acc.at IN
            IF o.k = "wait" THEN [acc EXCEPT !.ord = Append(@, 0)]
            ELSE [at |-> IF ch \in old THEN [acc.at EXCEPT ![ch] = Append(@, i)] ELSE acc.at @@ (ch :> <<i>>),
                  ord |-> Append(acc.ord, IF ch \in old THEN Len(acc.at[ch]) + 1 ELSE 1),
                  half |-> IF o.k = "coll" THEN acc.half ELSE Append(acc.half, i)]
    IN FoldLeft(Add, [at |-> <<>>, ord |-> <<>>, half |-> <<>>], [i \in DOMAIN prog |-> i])
Tables(Prog) == [q \in DOMAIN Prog |-> Table(q - 1, Prog[q])]

Has(T, q, ch, n) == ch \in DOMAIN T[q].at /\ Len(T[q].at[ch]) >= n
\* the place of the counterpart of the message at place i of process p (0: there is none)
Partner(Prog, T, p, i) ==
    LET o == Prog[p][i] ch == Counterpart(Channel(p - 1, o)) q == o.peer + 1 n == T[p].ord[i] IN
    IF q \in DOMAIN Prog /\ Has(T, q, ch, n) THEN T[q].at[ch][n] ELSE 0

Over(Prog, pc, p) == pc[p] > Len(Prog[p])
\* the call process p is in can end
CanEnd(Prog, T, pc, p) ==
    LET i == pc[p] o == Prog[p][i] IN
    CASE o.k = "coll" -> \A m \in {o.members[x] + 1 : x \in DOMAIN o.members} : LET ch == Channel(0, o) n == T[p].ord[i] IN Has(T, m, ch, n) /\ pc[m] >= T[m].at[ch][n]
      [] o.k = "wait" -> \A x \in DOMAIN o.ids : LET h == T[p].half[o.ids[x]] m == Partner(Prog, T, p, h) IN m > 0 /\ pc[Prog[p][h].peer + 1] > m
      [] OTHER -> TRUE
Moves(Prog, T, pc) == {p \in DOMAIN Prog : ~Over(Prog, pc, p) /\ CanEnd(Prog, T, pc, p)}
\* everybody who can go on does. Ends are never taken back (CanEnd is monotone in pc), so this
\* reaches the same last state as every other schedule (checked by WaitingModel).
Sweep(Prog, T, pc) == LET M == Moves(Prog, T, pc) IN [p \in DOMAIN pc |-> IF p \in M THEN pc[p] + 1 ELSE pc[p]]

\* what must agree whatever the schedule
SameCalls(Prog, T, p, i) ==
    LET o == Prog[p][i] ch == Channel(0, o) n == T[p].ord[i] IN
    o.k = "coll" => \A x \in DOMAIN o.members : Has(T, o.members[x] + 1, ch, n) => LET m == Prog[o.members[x] + 1][T[o.members[x] + 1].at[ch][n]] IN m.sig = o.sig /\ m.members = o.members
LargeEnough(Prog, T, p, i) ==
    LET o == Prog[p][i] m == Partner(Prog, T, p, i) IN
    o.k = "s" /\ m > 0 => o.bytes <= Prog[o.peer + 1][m].bytes
Delivered(Prog, T, p, i) == Prog[p][i].k \in {"s", "r"} => Partner(Prog, T, p, i) > 0
=============================================================================
