---------------------------- MODULE ScalarTrace ----------------------------
(* Recorded runs that differ only in their passive scalars. A record has     *)
(* runs: [label, names, outs, dts], where names[k] tells which initial field *)
(* scalar k carries ("c..." are constants), and outs the states of all       *)
(* outputs. Scalars stay within [0,1], constants stay, equal initial fields  *)
(* stay equal whatever their place and company, and the flow never changes.  *)
EXTENDS RealArith, Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE
SameFlow(r, a, b) ==
    /\ a.dts = b.dts \/ Say("time steps", <<r.what, a.label, b.label, a.dts, b.dts>>)
    /\ Len(a.outs) = Len(b.outs) \/ Say("outputs", <<r.what, a.label, b.label>>)
    /\ \A o \in DOMAIN a.outs : LET p == a.outs[o] q == b.outs[o] IN (p.rho = q.rho /\ p.u = q.u /\ p.P = q.P /\ p.E = q.E) \/ Say("flow", <<r.what, a.label, b.label, o>>)
Bounded(r, a) == \A o \in DOMAIN a.outs : /\ Len(a.outs[o].fx) = Len(a.names) \/ Say("number of scalars", <<r.what, a.label, o>>)
                                          /\ \A k \in DOMAIN a.names : \A i \in DOMAIN a.outs[o].fx[k] : LET v == a.outs[o].fx[k][i] IN (RLe(0, v) /\ RLe(v, 1)) \/ Say("out of bounds", <<r.what, a.label, o, k, i, v>>)
Constant(n) == n[1] = "c"
ConstantsStay(r, a) == \A k \in DOMAIN a.names : Constant(a.names[k]) => \A o \in DOMAIN a.outs : \A i \in DOMAIN a.outs[o].fx[k] :
                           RClose(a.outs[o].fx[k][i], a.names[k][2], 0, RPow10(-11)) \/ Say("constant", <<r.what, a.label, o, k, i, a.outs[o].fx[k][i], a.names[k][2]>>)
Alike(r, a, b) == \A k \in DOMAIN a.names : \A l \in DOMAIN b.names : a.names[k] = b.names[l] =>
                           \A o \in DOMAIN a.outs : \A i \in DOMAIN a.outs[o].fx[k] : RClose(a.outs[o].fx[k][i], b.outs[o].fx[l][i], 0, RPow10(-11)) \/ Say("scalar depends on its place or company", <<r.what, a.label, b.label, o, k, l, i, a.outs[o].fx[k][i], b.outs[o].fx[l][i]>>)
Conforms == LET r == Cases[c] IN
    /\ \A a \in DOMAIN r.runs : Bounded(r, r.runs[a]) /\ ConstantsStay(r, r.runs[a])
    /\ \A a \in 2..Len(r.runs) : SameFlow(r, r.runs[1], r.runs[a])
    /\ \A a, b \in DOMAIN r.runs : a <= b => Alike(r, r.runs[a], r.runs[b])
=============================================================================
