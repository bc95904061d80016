--------------------------- MODULE ExchangeModel ---------------------------
(***************************************************************************)
(* The ghost exchange as the processes carry it out: for each direction    *)
(* and side in turn, every process posts the outermost interior layers     *)
(* (with the ghost layers of the other directions) to its neighbour and    *)
(* receives the opposite ones. Processes run at their own pace; messages   *)
(* between two processes with one tag arrive in the order they were sent.  *)
(* After it, for every interleaving, each ghost cell holds the number of   *)
(* the cell it lies over.                                                  *)
(***************************************************************************)
EXTENDS Domain, TLC
CONSTANTS N, P, Ng, ND
VARIABLES pc, arr, chan
vars == <<pc, arr, chan>>
Start(n, p, k) == (n \div p) * k + (IF k < n % p THEN k ELSE n % p)
Stop(n, p, k) == Start(n, p, k) + (n \div p) + (IF k < n % p THEN 1 ELSE 0)
Procs == (0..P[1]-1) \X (0..P[2]-1) \X (0..P[3]-1)
Lo(r, d) == Start(N[d], P[d], r[d])
Hi(r, d) == Stop(N[d], P[d], r[d])
L(d) == Layers(ND, d, Ng)
(* local cells in global coordinates *)
Local(r) == (Lo(r,1)-L(1)..Hi(r,1)+L(1)-1) \X (Lo(r,2)-L(2)..Hi(r,2)+L(2)-1) \X (Lo(r,3)-L(3)..Hi(r,3)+L(3)-1)
Interior(r) == (Lo(r,1)..Hi(r,1)-1) \X (Lo(r,2)..Hi(r,2)-1) \X (Lo(r,3)..Hi(r,3)-1)
Num(cell) == 1 + Wrap(cell[1], N[1]) + N[1] * (Wrap(cell[2], N[2]) + N[2] * Wrap(cell[3], N[3]))
Stale == 0
(* step k (0 based): direction, side, send or receive *)
Steps == 4 * ND
DirAt(k) == (k \div 4) + 1
SideAt(k) == (k \div 2) % 2
Neighbour(r, d, s) == [r EXCEPT ![d] = Wrap(r[d] + (IF s = 0 THEN -1 ELSE 1), P[d])]
(* what is sent towards side s: keyed by offset in direction d and by the local transverse position *)
SendLayer(r, d, s) == {c \in Local(r) : IF s = 0 THEN c[d] >= Lo(r,d) /\ c[d] < Lo(r,d) + Ng ELSE c[d] >= Hi(r,d) - Ng /\ c[d] < Hi(r,d)}
RecvLayer(r, d, s) == {c \in Local(r) : IF s = 0 THEN c[d] >= Hi(r,d) ELSE c[d] < Lo(r,d)}
First(r, d, s, send) == IF send THEN (IF s = 0 THEN Lo(r,d) ELSE Hi(r,d) - Ng) ELSE (IF s = 0 THEN Hi(r,d) ELSE Lo(r,d) - Ng)
Key(r, d, first, c) == [c EXCEPT ![d] = @ - first]
Buffer(r, d, s) == LET lay == SendLayer(r, d, s) f == First(r, d, s, TRUE) IN
    [k \in {Key(r, d, f, c) : c \in lay} |-> arr[r][[k EXCEPT ![d] = @ + f]]]
Channels == Procs \X Procs \X (1..ND)
Init == /\ pc = [r \in Procs |-> 0]
        /\ arr = [r \in Procs |-> [c \in Local(r) |-> IF c \in Interior(r) THEN Num(c) ELSE Stale]]
        /\ chan = [q \in Channels |-> <<>>]
Send(r) == LET k == pc[r] d == DirAt(k) s == SideAt(k) IN
    /\ k < Steps /\ k % 2 = 0
    /\ chan' = [chan EXCEPT ![<<r, Neighbour(r, d, s), d>>] = Append(@, Buffer(r, d, s))]
    /\ pc' = [pc EXCEPT ![r] = k + 1]
    /\ arr' = arr
Recv(r) == LET k == pc[r] d == DirAt(k) s == SideAt(k) q == <<Neighbour(r, d, 1 - s), r, d>> IN
    /\ k < Steps /\ k % 2 = 1 /\ chan[q] # <<>>
    /\ LET lay == RecvLayer(r, d, s) f == First(r, d, s, FALSE) IN
       arr' = [arr EXCEPT ![r] = [c \in Local(r) |-> IF c \in lay THEN Head(chan[q])[Key(r, d, f, c)] ELSE arr[r][c]]]
    /\ chan' = [chan EXCEPT ![q] = Tail(@)]
    /\ pc' = [pc EXCEPT ![r] = k + 1]
Next == \E r \in Procs : Send(r) \/ Recv(r)
Spec == Init /\ [][Next]_vars
InteriorKept == \A r \in Procs : \A c \in Interior(r) : arr[r][c] = Num(c)
Filled == \A r \in Procs : pc[r] = Steps => \A c \in Local(r) : arr[r][c] = Num(c)
AllDone == \A r \in Procs : pc[r] = Steps
NothingLeft == AllDone => \A q \in Channels : chan[q] = <<>>
NoDeadlock == AllDone \/ ENABLED Next
=============================================================================
