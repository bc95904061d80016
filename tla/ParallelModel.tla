--------------------------- MODULE ParallelModel ---------------------------
(* A row of blocks, one per process, stepping without a common clock. In     *)
(* every step a process adds its fastest signal to the reduction of that     *)
(* step, waits for its result, updates its interior with it, sends its edge  *)
(* cells to both neighbours and fills its ghosts from what they sent, or     *)
(* from its border. Whatever the order in which things happen, after step n  *)
(* every process holds its slice of what a single process computes.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Splits, Ng, Values, Steps
VARIABLES split, line, local, pc, step, mail, box
vars == <<split, line, local, pc, step, mail, box>>
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
P == Len(split)
Ranks == 1..P
N == Sum(split, P)
Off(p) == Sum(split, p - 1)
Left(p) == IF p = 1 THEN P ELSE p - 1
Right(p) == IF p = P THEN 1 ELSE p + 1
MaxOf(S) == CHOOSE m \in S : \A k \in S : k <= m
Flow(m, a, b, z) == (a + 2 * b + 3 * z + m) % 5
(* one process, the whole periodic line *)
At(l, i) == l[((i - 1) % N) + 1]
One(l) == LET m == MaxOf({l[i] : i \in 1..N}) IN [i \in 1..N |-> Flow(m, At(l, i - 1 + N), l[i], At(l, i + 1))]
RECURSIVE Ref(_)
Ref(n) == IF n = 0 THEN line ELSE One(Ref(n - 1))
Full(l, p) == [i \in 1-Ng..split[p]+Ng |-> At(l, Off(p) + i + N)]
Init == /\ split \in Splits /\ \A p \in DOMAIN split : split[p] >= Ng
        /\ line \in [1..Sum(split, Len(split)) -> Values]
        /\ local = [p \in 1..Len(split) |-> Full(line, p)]
        /\ pc = [p \in 1..Len(split) |-> "reduce"] /\ step = [p \in 1..Len(split) |-> 0]
        /\ mail = [p \in 1..Len(split) |-> [l |-> <<>>, r |-> <<>>]]
        /\ box = [n \in 0..Steps-1 |-> [from |-> {}, max |-> 0]]
Reduce(p) == /\ pc[p] = "reduce" /\ step[p] < Steps
             /\ box' = [box EXCEPT ![step[p]] = [from |-> @.from \cup {p}, max |-> MaxOf({@.max} \cup {local[p][i] : i \in 1..split[p]})]]
             /\ pc' = [pc EXCEPT ![p] = "update"] /\ UNCHANGED <<split, line, local, step, mail>>
Update(p) == /\ pc[p] = "update" /\ box[step[p]].from = Ranks
             /\ local' = [local EXCEPT ![p] = [i \in DOMAIN @ |-> IF i \in 1..split[p] THEN Flow(box[step[p]].max, @[i - 1], @[i], @[i + 1]) ELSE @[i]]]
             /\ pc' = [pc EXCEPT ![p] = "send"] /\ UNCHANGED <<split, line, step, mail, box>>
(* what arrives at p from its left neighbour is queued in mail[p].l *)
Send(p) == /\ pc[p] = "send"
           /\ LET lowest == [k \in 1..Ng |-> local[p][k]] highest == [k \in 1..Ng |-> local[p][split[p] - Ng + k]]
                  m == [mail EXCEPT ![Right(p)].l = Append(@, highest)]
              IN mail' = [m EXCEPT ![Left(p)].r = Append(@, lowest)]
           /\ pc' = [pc EXCEPT ![p] = "receive"] /\ UNCHANGED <<split, line, local, step, box>>
Receive(p) == /\ pc[p] = "receive" /\ mail[p].l # <<>> /\ mail[p].r # <<>>
              /\ local' = [local EXCEPT ![p] = [i \in DOMAIN @ |-> IF i < 1 THEN Head(mail[p].l)[i + Ng] ELSE IF i > split[p] THEN Head(mail[p].r)[i - split[p]] ELSE @[i]]]
              /\ mail' = [mail EXCEPT ![p] = [l |-> Tail(@.l), r |-> Tail(@.r)]]
              /\ step' = [step EXCEPT ![p] = @ + 1] /\ pc' = [pc EXCEPT ![p] = "reduce"] /\ UNCHANGED <<split, line, box>>
Next == \E p \in Ranks : Reduce(p) \/ Update(p) \/ Send(p) \/ Receive(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AsOne == \A p \in Ranks : pc[p] = "reduce" => local[p] = Full(Ref(step[p]), p)
InStep == \A p, q \in Ranks : step[p] - step[q] \in {-1, 0, 1}
Finish == <>(\A p \in Ranks : step[p] = Steps)
=============================================================================
