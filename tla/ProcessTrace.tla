---------------------------- MODULE ProcessTrace ----------------------------
(* Recorded runs of one input on different numbers and layouts of processes: *)
(* alone is the run of a single process, many those of several. Same ends,   *)
(* same steps on every process, same files with the same contents.           *)
EXTENDS RealArith, Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, Cases[c].what, what, x>>) /\ FALSE
Tol == RPow10(-10)
Near(a, b, scale) == IF a = b THEN TRUE ELSE RClose(a, b, RPow10(-11), RMul(Tol, scale))
SameData(f, g, v, scale, who) ==
    LET a == f[v] b == g[v] IN
    /\ b.shape = a.shape \/ Say("extents", <<who, v, a.shape, b.shape>>)
    /\ a.data = b.data \/ \A i \in DOMAIN a.data : Near(b.data[i], a.data[i], scale) \/ Say("value", <<who, v, i, a.data[i], b.data[i]>>)
SameFile(a, b, scale, who) ==
    /\ (b.name = a.name) \/ Say("name of file", <<who, a.name, b.name>>)
    /\ DOMAIN b.data = DOMAIN a.data \/ Say("datasets", <<who, DOMAIN a.data, DOMAIN b.data>>)
    /\ \A v \in DOMAIN a.data : SameData(a.data, b.data, v, IF v \in DOMAIN scale THEN scale[v] ELSE 0, <<who, a.name>>)
SameRun(a, b, scale) ==
    /\ b.rc = a.rc \/ Say("end", <<b.who, a.rc, b.rc, b.err>>)
    /\ Len(b.files) = Len(a.files) \/ Say("number of files", <<b.who, Len(a.files), Len(b.files)>>)
    /\ \A k \in DOMAIN a.files : SameFile(a.files[k], b.files[k], scale, b.who)
    /\ \A p \in DOMAIN b.steps : /\ Len(b.steps[p]) = Len(a.steps[1]) \/ Say("number of steps", <<b.who, p, Len(a.steps[1]), Len(b.steps[p])>>)
                                 /\ \A k \in DOMAIN a.steps[1] : (Near(b.steps[p][k][1], a.steps[1][k][1], 0) /\ Near(b.steps[p][k][2], a.steps[1][k][2], 0)) \/ Say("step", <<b.who, p, k, a.steps[1][k], b.steps[p][k]>>)
                                 /\ b.steps[p] = b.steps[1] \/ Say("processes differ", <<b.who, p>>)
    /\ b.index = a.index \/ Say("index", <<b.who, a.index, b.index>>)
Conforms == LET r == Cases[c] IN \A k \in DOMAIN r.many : SameRun(r.alone, r.many[k], r.scale)
=============================================================================
