------------------------------ MODULE IniTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded readings. Case c of the trace holds a text and  *)
(* what the real parsers did with it; the specification reads the same     *)
(* text line by line and must end with the same calls, error line and      *)
(* lookups.                                                                *)
(***************************************************************************)
EXTENDS IniGrammar, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pos, st

Rejected == <<114, 101, 106>>    \* the raw handler refuses the name "rej"
Accepts(s, n) == n # Rejected

Init == c \in 1..Len(Cases) /\ pos = 1 /\ st = InitState
Next == /\ pos <= Len(Cases[c].text)
        /\ LET e == LineEnd(Cases[c].text, pos) IN
             /\ st' = ReadLine(st, SubSeq(Cases[c].text, pos, e), Accepts)
             /\ pos' = e + 1
        /\ c' = c
Spec == Init /\ [][Next]_<<c, pos, st>>
Done == pos > Len(Cases[c].text)

(* INIReader itself refuses no setting *)
FormErr == LET bad == Cases[c].formerr IN bad
Say(what, exp) == PrintT(<<"REJECTED", c, what, exp>>) /\ FALSE

CheckCalls == LET r == Cases[c] IN
    /\ (r.calls = st.calls \/ Say("calls of ini_parse", st.calls))
    /\ (r.ret = st.err \/ Say("result of ini_parse", st.err))
    /\ (r.scalls = st.calls \/ Say("calls of ini_parse_string", st.calls))
    /\ (r.sret = st.err \/ Say("result of ini_parse_string", st.err))
CheckReader == LET r == Cases[c] IN
    /\ (r.uses_rej \/ r.ctor = st.err \/ Say("INIReader constructor", st.err))
    /\ (st.err = 0 =>
          \A i \in 1..Len(r.lookups) :
             LET q == r.lookups[i]
                 v == Lookup(st.calls, q.s, q.n)
             IN (q.found = v[1] /\ (v[1] => q.v = v[2])) \/ Say("lookup", <<q.s, q.n, v>>))
Conforms == Done => CheckCalls /\ CheckReader
=============================================================================
