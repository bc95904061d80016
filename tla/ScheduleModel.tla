--------------------------- MODULE ScheduleModel ---------------------------
(***************************************************************************)
(* The time loop as the program runs it: with counters for each kind of    *)
(* output, saved in every file and restored by a restart. Whole times.     *)
(* A behaviour is one run, stopped where it likes, and restarts from any   *)
(* of its files. The allowed step is a function of the iteration, so a     *)
(* restarted run meets the same ones.                                      *)
(***************************************************************************)
EXTENDS Schedule, TLC
CONSTANTS Ends, Everys, Periods, Firsts, Limits, Steps, MaxRestarts, MaxSteps
VARIABLES p, speeds, t, iter, oid, iid, tid, files, hist, state, restarts
vars == <<p, speeds, t, iter, oid, iid, tid, files, hist, state, restarts>>
Init == /\ p \in [tini : {0}, tend : Ends, maxiter : Limits, every : Everys, period : Periods, first : Firsts]
        /\ (p.period = 0 => p.first = 1)
        /\ speeds \in [1..MaxSteps -> Steps]
        /\ t = 0 /\ iter = 0 /\ tid = -1 /\ restarts = 0 /\ hist = <<>>
        /\ IF WritesAtStart(p) THEN oid = 0 /\ iid = 0 /\ files = <<[id |-> 0, iid |-> 0, tid |-> -1, iter |-> 0, t |-> 0, leg |-> 0]>>
           ELSE oid = -1 /\ iid = -1 /\ files = <<>>
        /\ state = "running"
Step(spent) ==
    /\ state = "running" /\ iter < MaxSteps
    /\ LET cfl == speeds[iter + 1]
           byIter == p.every > 0 /\ iter + 1 >= (iid + 1) * p.every
           next == p.first + (tid + 1) * p.period
           byTime == p.period > 0 /\ next <= p.tend /\ t + cfl >= next
           dt1 == IF byTime THEN next - t ELSE cfl
           ends == t + dt1 >= p.tend
           dt == IF ends THEN p.tend - t ELSE dt1
           last == ends \/ iter + 1 >= p.maxiter \/ spent
           out == byIter \/ byTime \/ last
           iid2 == IF byIter THEN iid + 1 ELSE iid
           tid2 == IF byTime THEN tid + 1 ELSE tid
       IN /\ t' = t + dt /\ iter' = iter + 1 /\ iid' = iid2 /\ tid' = tid2
          /\ oid' = IF out THEN oid + 1 ELSE oid
          /\ files' = IF out THEN Append(files, [id |-> oid + 1, iid |-> iid2, tid |-> tid2, iter |-> iter + 1, t |-> t + dt, leg |-> restarts]) ELSE files
          /\ hist' = Append(hist, [t |-> t, u |-> t + dt, iter |-> iter + 1, cfl |-> cfl, spent |-> spent, out |-> out, last |-> last])
          /\ state' = IF last THEN "done" ELSE "running"
    /\ UNCHANGED <<p, speeds, restarts>>
(* from any file; the limits may be wider than those of the first run *)
Restart(k) ==
    /\ restarts < MaxRestarts /\ k \in 1..Len(files)
    /\ \E m \in Limits, e \in Ends : m >= p.maxiter /\ e >= p.tend /\ files[k].t < e /\ p' = [p EXCEPT !.maxiter = m, !.tend = e]
    /\ t' = files[k].t /\ iter' = files[k].iter /\ oid' = files[k].id /\ iid' = files[k].iid /\ tid' = files[k].tid
    /\ files' = SubSeq(files, 1, k) /\ hist' = SubSeq(hist, 1, files[k].iter)
    /\ state' = "running" /\ restarts' = restarts + 1 /\ UNCHANGED speeds
Next == Step(FALSE) \/ Step(TRUE) \/ \E k \in 1..Len(files) : Restart(k)
Spec == Init /\ [][Next]_vars

(* every step is the one the plan asks for. Steps made before a restart were made under an earlier, narrower plan: only the last one is judged *)
LastStep == hist[Len(hist)]
StepsAsPlanned == hist # <<>> /\ ~(\E k \in DOMAIN files : files[k].iter = iter /\ files[k].leg < restarts) =>
    LET h == LastStep IN /\ RClose(h.u, RAdd(h.t, Length(p, h.t, 0, h.cfl)), 0, 0)
                         /\ h.out = Writes(p, h.t, h.u, 0, h.iter, h.spent)
                         /\ h.last = Last(p, h.u, 0, h.iter, h.spent)
Forward == /\ t <= p.tend
           /\ \A i \in DOMAIN hist : hist[i].t < hist[i].u /\ (i > 1 => hist[i].t = hist[i-1].u)
Numbered == \A k \in DOMAIN files : files[k].id = files[1].id + k - 1 /\ files[1].id = 0
NoneTwice == \A k, l \in DOMAIN files : k < l => files[k].iter < files[l].iter
NoneSkipped == /\ \A i \in DOMAIN hist : (p.every > 0 /\ i % p.every = 0) => \E k \in DOMAIN files : files[k].iter = i
               /\ HasTimes(p) => \A j \in 0..p.tend : Scheduled(p, j) # R(0) /\ RLe(Scheduled(p, j), t) => \E k \in DOMAIN files : REq(files[k].t, Scheduled(p, j))
Stops == state = "done" <=> hist # <<>> /\ LastStep.last /\ ~(\E k \in DOMAIN files : files[k].iter = iter /\ files[k].leg < restarts)

(* an uninterrupted run under the plan, step by step *)
RECURSIVE Run(_, _, _)
Run(q, u, n) == IF n >= MaxSteps THEN <<>> ELSE
    LET d == Length(q, u, 0, speeds[n + 1]) v == RAdd(u, d) IN
    <<[t |-> RText(v), iter |-> n + 1, out |-> Writes(q, u, v, 0, n + 1, FALSE)]>> \o IF Last(q, v, 0, n + 1, FALSE) THEN <<>> ELSE Run(q, v, n + 1)
(* a run restarted from a file of a run that was cut nowhere by its own end reaches the states of the uninterrupted run *)
SameAsUninterrupted ==
    LET ref == TLCEval(Run(p, 0, 0)) IN
    (\A i \in DOMAIN hist : hist[i].spent = FALSE /\ REq(hist[i].u, RAdd(hist[i].t, Length(p, hist[i].t, 0, hist[i].cfl))) /\ ((i < Len(hist)) => ~Last(p, hist[i].u, 0, i, FALSE)))
        => \A i \in DOMAIN hist : i <= Len(ref) /\ REq(ref[i].t, hist[i].u) /\ (ref[i].out => hist[i].out)
=============================================================================
