------------------------------ MODULE GridTrace ------------------------------
(* Recorded grids: coordinates, centres, widths, volumes and areas held by   *)
(* every process of a run.                                                   *)
EXTENDS Geometry, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Say(what, x) == PrintT(<<"REJECTED", c, what, x>>) /\ FALSE
G(r, d) == IF d <= r.ndim THEN r.ng ELSE 0
Scale(r, d) == RAdd(RAbs(r.ends[d][1]), RAbs(r.ends[d][2]))
(* face i (0 based, ghosts included) of the whole domain in direction d *)
Wanted(r, d, i) == IF r.kind = "list" THEN R(r.list[d][i + 1])
                   ELSE RAdd(r.ends[d][1], RDiv(RMul(i - G(r, d), RSub(r.ends[d][2], r.ends[d][1])), r.n[d]))
Close(x, y, s) == RClose(x, y, RPow10(-11), RMul(RPow10(-13), s))
CoordinatesOk(r, b) == \A d \in 1..3 :
    LET x == b.x[d] n == b.max[d] - b.min[d] + 2 * G(r, d) s == Scale(r, d) IN
    /\ (Len(x) = n + 1 /\ Len(b.xc[d]) = n /\ Len(b.dx[d]) = n) \/ Say("extent", <<d, n, Len(x)>>)
    /\ \A i \in 1..n+1 : Close(x[i], Wanted(r, d, b.min[d] + i - 1), s) \/ Say("coordinate", <<d, i, x[i], RText(Wanted(r, d, b.min[d] + i - 1))>>)
    /\ \A i \in 1..n : Close(b.xc[d][i], RDiv(RAdd(x[i], x[i + 1]), 2), s) \/ Say("centre", <<d, i, b.xc[d][i]>>)
    /\ \A i \in 1..n : Close(b.dx[d][i], RSub(x[i + 1], x[i]), s) \/ Say("width", <<d, i, b.dx[d][i]>>)
(* cells whose coordinates make sense (the polar axis and the centre bound the ghost cells) *)
Usable(r, lo, hi) == r.geom = "Cartesian" \/ (RLe(0, lo[1]) /\ (r.ndim = 1 \/ (RLe(0, lo[2]) /\ RLe(hi[2], RPi))))
Inside(r, b, p) == \A d \in 1..3 : p[d] >= G(r, d) /\ p[d] < G(r, d) + b.max[d] - b.min[d]
MeasuresOk(r, b) ==
    LET w == [d \in 1..3 |-> Len(b.dx[d])]
        At(q) == <<q % w[1], (q \div w[1]) % w[2], q \div (w[1] * w[2])>>
    IN \A q \in 0..(w[1] * w[2] * w[3] - 1) :
        LET p == At(q)
            lo == [d \in 1..3 |-> R(b.x[d][p[d] + 1])]
            hi == [d \in 1..3 |-> R(b.x[d][p[d] + 2])]
        IN Usable(r, lo, hi) =>
            /\ RClose(b.dv[q + 1], Volume(r.geom, r.ndim, lo, hi), RPow10(-9), 0) \/ Say("volume", <<p, b.dv[q + 1], RText(Volume(r.geom, r.ndim, lo, hi))>>)
            /\ Inside(r, b, p) => RLt(0, b.dv[q + 1]) \/ Say("volume not positive", <<p, b.dv[q + 1]>>)
            /\ \A d \in 1..r.ndim : RClose(b.ds[d][q + 1], FaceArea(r.geom, r.ndim, lo, hi, d), RPow10(-9), RPow10(-14)) \/ Say("area", <<p, d, b.ds[d][q + 1], RText(FaceArea(r.geom, r.ndim, lo, hi, d))>>)
(* the volumes of all cells of all processes add up to that of the domain *)
RECURSIVE SumCells(_, _, _)
SumCells(r, b, q) ==
    LET w == [d \in 1..3 |-> Len(b.dx[d])] IN
    IF q = w[1] * w[2] * w[3] THEN 0
    ELSE LET rest == SumCells(r, b, q + 1) IN IF Inside(r, b, <<q % w[1], (q \div w[1]) % w[2], q \div (w[1] * w[2])>>) THEN RAdd(b.dv[q + 1], rest) ELSE rest
RECURSIVE SumBlocks(_, _)
SumBlocks(r, k) == IF k > Len(r.blocks) THEN 0 ELSE RAdd(SumCells(r, r.blocks[k], 0), SumBlocks(r, k + 1))
Ends(r, d, s) == IF r.kind = "list" THEN R(r.list[d][IF s = 1 THEN G(r, d) + 1 ELSE G(r, d) + r.n[d] + 1]) ELSE R(r.ends[d][s])
TotalOk(r) == LET lo == [d \in 1..3 |-> Ends(r, d, 1)] hi == [d \in 1..3 |-> Ends(r, d, 2)] IN
    RClose(SumBlocks(r, 1), Volume(r.geom, r.ndim, lo, hi), RPow10(-9), 0) \/ Say("total volume", <<RText(SumBlocks(r, 1)), RText(Volume(r.geom, r.ndim, lo, hi))>>)
Conforms ==
    LET r == Cases[c] IN
    IF r.refused THEN r.unusable \/ Say("refused", r.job)
    ELSE /\ ~r.unusable \/ Say("not refused", r.job)
         /\ \A k \in 1..Len(r.blocks) : CoordinatesOk(r, r.blocks[k]) /\ MeasuresOk(r, r.blocks[k])
         /\ TotalOk(r)
=============================================================================
