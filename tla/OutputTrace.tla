---------------------------- MODULE OutputTrace ----------------------------
(* Recorded runs: what each process held at the end of every step (told by   *)
(* user code, cell by cell) and the files. The files are complete: every     *)
(* cell of every field at its global place, the grid, the counters, the      *)
(* build. The index lists them.                                              *)
(* fresh: the state the run started with, if it did not restart              *)
EXTENDS Eos, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pos
vars == <<c, pos>>
r == Cases[c]
Init == c \in 1..Len(Cases) /\ pos = 0
(* pos counts the files *)
Next == pos < Len(Cases[c].files) /\ pos' = pos + 1 /\ c' = c
Spec == Init /\ [][Next]_vars
Say(what, x) == PrintT(<<"REJECTED", c, r.what, pos, what, x>>) /\ FALSE
Gas0 == [kind |-> r.gas, gamma |-> R(r.gamma), mu |-> R(r.mu)]
Ng(d) == IF d <= r.ndim THEN r.ng ELSE 0
Total == r.n[1] * r.n[2] * r.n[3]
Shape == <<r.n[3], r.n[2], r.n[1]>>
Cell(i, j, k) == i + r.n[1] * (j + r.n[2] * k) + 1
Has(f, name, shape) == name \in DOMAIN f.data /\ f.data[name].shape = shape
Vel == <<"ux0", "ux1", "ux2">>
Fx == <<"fx0", "fx1", "fx2", "fx3", "fx4", "fx5", "fx6", "fx7", "fx8", "fx9">>
Fields == {"rho", "P", "E", "T"} \cup {Vel[d] : d \in 1..r.ndim} \cup {Fx[k] : k \in 1..r.nfx}
Axis == <<"x0", "x1", "x2">>
AxisNg == <<"x0_ng", "x1_ng", "x2_ng">>
Counters == {"iter", "output_id", "iter_output_id", "time_output_id", "current_time", "gamma"}
Shapes(f) == /\ \A v \in Fields : Has(f, v, Shape) \/ Say("field", <<v, IF v \in DOMAIN f.data THEN f.data[v].shape ELSE <<>>, Shape>>)
             /\ \A d \in 1..3 : Has(f, Axis[d], <<r.n[d] + 2 * Ng(d) + 1>>) \/ Say("axis", d)
             /\ \A d \in 1..3 : Has(f, AxisNg[d], <<r.n[d] + 1>>) \/ Say("axis without ghosts", d)
             /\ \A v \in Counters : Has(f, v, <<>>) \/ Say("scalar", v)
V(f, name) == f.data[name].data
(* no value is lost: doubles as doubles *)
Types(f) == \A v \in Fields \cup {Axis[d] : d \in 1..3} \cup {AxisNg[d] : d \in 1..3} \cup {"current_time", "gamma"} : f.data[v].type = "float" /\ f.data[v].size >= 8
Grid(f) == \A d \in 1..3 :
    /\ V(f, AxisNg[d]) = SubSeq(V(f, Axis[d]), Ng(d) + 1, Ng(d) + r.n[d] + 1) \/ Say("axis without ghosts is another", <<d, V(f, Axis[d]), V(f, AxisNg[d])>>)
    /\ \A i \in DOMAIN V(f, Axis[d]) : RClose(V(f, Axis[d])[i], r.x[d][i], RPow10(-13), RMul(RPow10(-13), RAbs(RSub(r.x[d][Len(r.x[d])], r.x[d][1])))) \/ Say("axis", <<d, i, V(f, Axis[d])[i], r.x[d][i]>>)
(* derived fields belong to the same state *)
Derived(f) == \A i \in 1..Total :
    LET rho == V(f, "rho")[i] p == V(f, "P")[i]
        kin == RMul(RDiv(rho, 2), RSumSeq([d \in 1..r.ndim |-> RMul(V(f, Vel[d])[i], V(f, Vel[d])[i])]))
        e == RAdd(TLCEval(EOfP(Gas0, R(rho), R(p))), kin)
    IN /\ RClose(V(f, "E")[i], e, RPow10(-9), 0) \/ Say("energy and pressure differ", <<i, V(f, "E")[i], RText(e)>>)
       /\ RClose(V(f, "T")[i], TLCEval(TOfP(Gas0, R(rho), R(p))), RPow10(-9), 0) \/ Say("temperature", <<i, V(f, "T")[i], RText(TOfP(Gas0, R(rho), R(p)))>>)
(* first file of a fresh run: what the set-up put in each cell *)
Started(f) == /\ V(f, "rho") = r.fresh.rho \/ Say("initial density", <<V(f, "rho"), r.fresh.rho>>)
              /\ \A d \in 1..r.ndim : \A i \in 1..Total : RClose(V(f, Vel[d])[i], r.fresh.u[d][i], RPow10(-13), 0) \/ Say("initial velocity", <<d, i>>)
              /\ \A k \in 1..r.nfx : V(f, Fx[k]) = r.fresh.fx[k] \/ Say("initial fraction", k)
              /\ \A i \in 1..Total : RClose(V(f, "P")[i], r.fresh.P[i], RPow10(-9), RMul(RPow10(-13), V(f, "E")[i])) \/ Say("initial pressure", i)
(* later ones: what the processes held *)
Held(f, s) == /\ RClose(V(f, "current_time")[1], RAdd(s.t, s.dt), RPow10(-15), 0) \/ Say("time", <<V(f, "current_time"), s.t, s.dt>>)
              /\ V(f, "rho") = s.rho \/ Say("density", <<V(f, "rho"), s.rho>>)
              /\ V(f, "E") = s.E \/ Say("energy", <<V(f, "E"), s.E>>)
              /\ \A k \in 1..r.nfx : V(f, Fx[k]) = s.fx[k] \/ Say("fraction", <<k, V(f, Fx[k]), s.fx[k]>>)
(* momentum is not told by user code: uniform translation keeps it known (r.known # <<>>) *)
Known(f) == r.known # <<>> => \A d \in 1..r.ndim : \A i \in 1..Total : RClose(V(f, Vel[d])[i], r.known[d], RPow10(-9), 0) \/ Say("velocity", <<d, i, V(f, Vel[d])[i]>>)
FileOk(k) ==
    LET f == r.files[k] it == V(f, "iter")[1] IN
    /\ Shapes(f)
    /\ Types(f) \/ Say("types", "")
    /\ Grid(f)
    /\ (f.number = r.firstid + k - 1 /\ V(f, "output_id")[1] = f.number) \/ Say("number", <<f.number, V(f, "output_id")>>)
    /\ it = r.due[k] \/ Say("iteration", <<it, r.due>>)
    /\ RClose(V(f, "gamma")[1], r.gamma, 0, 0) \/ r.gas # "PerfectGas" \/ Say("gas constant", V(f, "gamma"))
    /\ r.build = [a \in DOMAIN r.build |-> IF a \in DOMAIN f.attributes THEN f.attributes[a] ELSE "missing"] \/ Say("build", f.attributes)
    /\ Derived(f)
    /\ IF it = r.from THEN Started(f) ELSE Held(f, r.steps[it - r.from])
    /\ Known(f)
(* the index *)
Entry(k) ==
    LET e == r.index[k] f == r.files[k] name == f.name IN
    /\ RClose(e.time, V(f, "current_time")[1], RPow10(-5), RPow10(-300)) \/ Say("time in the index", <<k, e.time, V(f, "current_time")>>)
    /\ e.size = <<r.n[3] + 1, r.n[2] + 1, r.n[1] + 1>> \/ Say("size in the index", <<k, e.size>>)
    /\ Len(e.axes) = 3 \/ Say("axes in the index", <<k, e.axes>>)
    /\ \A d \in 1..3 : (e.axes[d].file = name /\ e.axes[d].set = AxisNg[d] /\ e.axes[d].dims = <<r.n[d] + 1>>) \/ Say("axis in the index", <<k, e.axes[d], name>>)
    /\ {e.vars[i].name : i \in DOMAIN e.vars} = Fields \/ Say("variables in the index", <<k, e.vars>>)
    /\ Len(e.vars) = r.ndim + r.nfx + 4 \/ Say("variables twice", k)
    /\ \A i \in DOMAIN e.vars : (e.vars[i].file = name /\ e.vars[i].set = e.vars[i].name /\ e.vars[i].dims = Shape) \/ Say("variable in the index", <<k, e.vars[i], name>>)
Conforms ==
    IF pos = 0
    THEN /\ Len(r.files) = Len(r.due) \/ Say("files", <<Len(r.files), r.due>>)
         /\ Len(r.index) = Len(r.files) \/ Say("index", <<Len(r.index), Len(r.files)>>)
    ELSE FileOk(pos) /\ Entry(pos)
=============================================================================
