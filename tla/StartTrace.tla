----------------------------- MODULE StartTrace -----------------------------
(* Recorded starts of the program: which border conditions and settings     *)
(* were given, whether it started, and on which borders user code ran.      *)
EXTENDS Params, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE
ToSet(s) == {s[i] : i \in 1..Len(s)}
(* a start in which only border conditions vary *)
BordersOk(r) ==
    LET used == [b \in Borders(r.ndim) |-> BorderCondition(r.keys, b[1], b[2])]
        none == {b \in DOMAIN used : used[b] = ""}
        unknown == {used[b] : b \in DOMAIN used} \ (Conditions \cup {""})
        user == {b \in DOMAIN used : used[b] = "UserDefined"}
    IN IF none # {} THEN (~r.started /\ r.files = 0) \/ Say("started with a border without condition", none)
       ELSE IF unknown # {} THEN (~r.started /\ r.files = 0 /\ (ToSet(r.named) \cap unknown # {})) \/ Say("unknown condition not refused by name", <<unknown, r.named>>)
       ELSE /\ r.started \/ Say("refused", used)
            /\ {<<r.events[i][1], r.events[i][2]>> : i \in 1..Len(r.events)} = user \/ Say("user code on other borders", <<user, r.events>>)
(* a start with one setting spoiled: expected to be refused or not *)
SettingOk(r) == (r.started = r.usable /\ (r.usable \/ r.files = 0)) \/ Say("start with setting", <<r.what, r.started, r.files>>)
Conforms == LET r == Cases[c] IN IF r.kind = "borders" THEN BordersOk(r) ELSE SettingOk(r)
=============================================================================
