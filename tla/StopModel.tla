----------------------------- MODULE StopModel -----------------------------
(* Processes that step together. Before a step they reduce the validity of   *)
(* their cells; if any cell anywhere is invalid all of them write one more   *)
(* file (together) and stop with an error; else they take the step, which    *)
(* may make any cell invalid, and write a file when one is due. The last     *)
(* step is not examined.                                                     *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Procs, Steps, Freqs
VARIABLES freq, bad,   \* processes that own an invalid cell
          pc, arrived, verdict, iter, files
vars == <<freq, bad, pc, arrived, verdict, iter, files>>
Init == /\ freq \in Freqs /\ bad \in SUBSET Procs /\ pc = [p \in Procs |-> "check"] /\ arrived = {} /\ verdict = [p \in Procs |-> "none"] /\ iter = 0
        /\ files = IF freq > 0 THEN <<[iter |-> 0, bad |-> bad]>> ELSE <<>>
Arrive(p) == /\ pc[p] = "check" /\ p \notin arrived /\ arrived' = arrived \cup {p} /\ UNCHANGED <<freq, bad, pc, verdict, iter, files>>
Learn(p) == /\ pc[p] = "check" /\ arrived = Procs /\ verdict[p] = "none"
            /\ verdict' = [verdict EXCEPT ![p] = IF bad # {} THEN "stop" ELSE "go"]
            /\ pc' = [pc EXCEPT ![p] = IF bad # {} THEN "write" ELSE "step"] /\ UNCHANGED <<freq, bad, arrived, iter, files>>
(* collective: everybody is there *)
Evidence == /\ \A p \in Procs : pc[p] = "write" /\ files' = Append(files, [iter |-> iter, bad |-> bad])
            /\ pc' = [p \in Procs |-> "failed"] /\ UNCHANGED <<freq, bad, arrived, verdict, iter>>
Step == /\ \A p \in Procs : pc[p] = "step"
        /\ iter' = iter + 1 /\ arrived' = {} /\ verdict' = [p \in Procs |-> "none"]
        /\ \E b \in SUBSET Procs : /\ bad' = b
                                   /\ files' = IF (freq > 0 /\ (iter + 1) % freq = 0) \/ iter + 1 = Steps THEN Append(files, [iter |-> iter + 1, bad |-> b]) ELSE files
        /\ pc' = [p \in Procs |-> IF iter + 1 = Steps THEN "done" ELSE "check"] /\ UNCHANGED freq
Next == (\E p \in Procs : Arrive(p) \/ Learn(p)) \/ Evidence \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Agree == (\E p \in Procs : pc[p] \in {"write", "failed"}) => \A p \in Procs : pc[p] \in {"check", "write", "failed"}
Failed == \A p \in Procs : pc[p] = "failed"
EvidenceLeft == Failed => bad # {} /\ Len(files) > 0 /\ files[Len(files)] = [iter |-> iter, bad |-> bad]
OneMore == Failed => Cardinality({i \in DOMAIN files : files[i].iter = iter}) <= 2 /\ Len(files) = (IF freq = 0 THEN 0 ELSE 1 + iter \div freq) + 1
OnlyThen == (\E p \in Procs : pc[p] = "failed") => bad # {}
NotPast == [][iter' # iter => bad = {}]_vars
Ends == <>(Failed \/ \A p \in Procs : pc[p] = "done")
=============================================================================
