---------------------------- MODULE ChoiceModel ----------------------------
(* A start: choices are examined in any order; the first unusable one ends   *)
(* the run with an error naming it; only a start all of whose choices are    *)
(* usable writes its first output and enters the time loop, with each        *)
(* algorithm the one named.                                                  *)
EXTENDS Choices, TLC
CONSTANT Wrong
VARIABLES asked, examined, state, named, selected, files
vars == <<asked, examined, state, named, selected, files>>
Init == /\ asked \in {f \in [Kinds -> UNION {Names(k) : k \in Kinds} \cup Wrong] : \A k \in Kinds : f[k] \in Names(k) \cup Wrong}
        /\ examined = {} /\ state = "starting" /\ named = "nothing" /\ selected = [k \in Kinds |-> "none"] /\ files = 0
Examine(k) == /\ state = "starting" /\ k \notin examined
              /\ examined' = examined \cup {k}
              /\ IF Usable(k, asked[k]) THEN selected' = [selected EXCEPT ![k] = asked[k]] /\ UNCHANGED <<state, named>>
                 ELSE state' = "refused" /\ named' = k /\ UNCHANGED selected
              /\ UNCHANGED <<asked, files>>
Enter == state = "starting" /\ examined = Kinds /\ state' = "running" /\ files' = 1 /\ UNCHANGED <<asked, examined, named, selected>>
Next == (\E k \in Kinds : Examine(k)) \/ Enter
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Refusal == state = "refused" => files = 0 /\ ~Usable(named, asked[named])
Selection == state = "running" => selected = asked /\ \A k \in Kinds : Usable(k, asked[k])
Decided == <>(state \in {"refused", "running"})
=============================================================================
