---------------------------- MODULE EnergyTrace ----------------------------
(* Recorded runs with scripted energies. outs: the file of every iteration   *)
(* (of a run that writes all of them); steps: how many steps were taken;     *)
(* limit: how many were asked for; said: the numbers in the error message.   *)
(* sparse: the files of the same run with outputs every `every` steps only.  *)
EXTENDS RealArith, Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, Cases[c].what, what, x>>) /\ FALSE
Kinetic(o, i) == RMul(RDiv(o.rho[i], 2), RSumSeq([d \in DOMAIN o.u |-> RMul(o.u[d][i], o.u[d][i])]))
Odd(o, i) == ~RIsFinite(o.rho[i]) \/ ~RIsFinite(o.E[i]) \/ \E d \in DOMAIN o.u : ~RIsFinite(o.u[d][i])
NaNs(o, i) == RIsNaN(o.rho[i]) \/ RIsNaN(o.E[i]) \/ \E d \in DOMAIN o.u : RIsNaN(o.u[d][i])
(* rounding of the velocities in the file *)
Blur(o, i) == RMul("1e-14", Kinetic(o, i))
Below(o, i) == IF Odd(o, i) THEN NaNs(o, i) ELSE RLt(RAdd(RSub(o.E[i], Kinetic(o, i)), Blur(o, i)), 0)
Above(o, i) == IF Odd(o, i) THEN FALSE ELSE RLe(0, RSub(RSub(o.E[i], Kinetic(o, i)), Blur(o, i)))
Invalid(o) == \E i \in DOMAIN o.rho : Below(o, i)
Valid(o) == \A i \in DOMAIN o.rho : Above(o, i)
Same(a, b) == a.rho = b.rho /\ a.u = b.u /\ a.E = b.E /\ a.P = b.P /\ a.T = b.T /\ a.fx = b.fx
Stopped(r) == r.rc # "0"
Named(r, t, iter) == /\ \E k \in DOMAIN r.said : RClose(r.said[k], t, RPow10(-4), 0)
                     /\ \E k \in DOMAIN r.said : RClose(r.said[k], iter, 0, 0)
Evidence(r, file, before, id, what) ==
    /\ (file.id = id /\ file.number = id) \/ Say("number of the extra file", <<what, file.id, file.number, id>>)
    /\ file.iter = before.iter \/ Say("iteration of the extra file", <<what, file.iter, before.iter>>)
    /\ file.t = before.t \/ Say("time of the extra file", <<what, file.t, before.t>>)
    /\ Same(file, before) \/ Say("state in the extra file", <<what, file, before>>)
Conforms ==
    LET r == Cases[c] n == r.steps IN
    /\ Len(r.outs) = n + 1 + (IF Stopped(r) THEN 1 ELSE 0) \/ Say("files", <<r.rc, n, Len(r.outs)>>)
    /\ \A k \in 1..n : ~Invalid(r.outs[k]) \/ Say("step taken from an invalid state", k)
    /\ IF Stopped(r)
       THEN /\ ~Valid(r.outs[n + 1]) \/ Say("stopped at a valid state", <<n, r.err>>)
            /\ n < r.limit \/ Say("stopped after the last step", n)
            /\ Evidence(r, r.outs[n + 2], r.outs[n + 1], n + 1, "every")
            /\ Named(r, r.outs[n + 1].t, n) \/ Say("message", <<r.err, r.outs[n + 1].t, n>>)
       ELSE n = r.limit \/ Say("ended early", <<n, r.err>>)
    /\ LET s == r.sparse
           due == SelectSeq([k \in 1..n + 1 |-> k - 1], LAMBDA i : (r.every > 0 /\ i % r.every = 0) \/ i = r.limit)
           m == Len(due)
       IN /\ (s.rc = r.rc /\ s.steps = n) \/ Say("another end with fewer files", <<s.rc, r.rc, s.steps, n, s.err>>)
          /\ Len(s.files) = m + (IF Stopped(r) THEN 1 ELSE 0) \/ Say("fewer files", <<due, Len(s.files)>>)
          /\ \A k \in 1..m : (s.files[k].iter = due[k] /\ s.files[k].id = k - 1 /\ Same(s.files[k], r.outs[due[k] + 1])) \/ Say("regular file", <<k, due, s.files[k].iter>>)
          /\ Stopped(r) => Evidence(r, s.files[m + 1], r.outs[n + 1], m, "sparse")
=============================================================================
