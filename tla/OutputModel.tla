---------------------------- MODULE OutputModel ----------------------------
(* Blocks of a global box, each kept by its process in an array with ghost   *)
(* cells, are written into one global dataset: cell m of the interior goes   *)
(* to block start + m. Processes write in any order. The file is read back   *)
(* by processes of another layout. Beside it an index lists the outputs: it  *)
(* is rewritten at each output from the records of this execution, and names *)
(* the files after the number of the newest.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sizes,   \* sizes <<n1, n2>> of the global box
          Splits,  \* widths of the blocks along one direction
          Ngs, Legs, Outs
VARIABLES n, ng, a, b,      \* splits along both directions for writing (a) and for reading (b)
          file, todo, mem,  \* file: cell -> value; processes still to write; arrays read back
          number, records, index, leg
vars == <<n, ng, a, b, file, todo, mem, number, records, index, leg>>
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
Fits(s, w) == Sum(s, Len(s)) = w
Blocks(s) == (1..Len(s[1])) \X (1..Len(s[2]))
Start(s, p, d) == Sum(s[d], p[d] - 1)
Cells == (0..n[1]-1) \X (0..n[2]-1)
Value(g) == 100 * g[1] + g[2]
Ghost == -1
(* the array of block p *)
Array(s, p) == [i \in ((0..s[1][p[1]] + 2 * ng - 1) \X (0..s[2][p[2]] + 2 * ng - 1)) |->
                  IF \A d \in {1, 2} : ng <= i[d] /\ i[d] < ng + s[d][p[d]] THEN Value(<<Start(s, p, 1) + i[1] - ng, Start(s, p, 2) + i[2] - ng>>) ELSE Ghost]
(* selections: in memory from ng, in the file from the block's start, the block's size *)
Sel(s, p) == (0..s[1][p[1]]-1) \X (0..s[2][p[2]]-1)
Init == /\ n \in Sizes /\ ng \in Ngs
        /\ a \in {s \in Splits \X Splits : Fits(s[1], n[1]) /\ Fits(s[2], n[2])}
        /\ b \in {s \in Splits \X Splits : Fits(s[1], n[1]) /\ Fits(s[2], n[2])}
        /\ file = [g \in Cells |-> -2] /\ todo = Blocks(a) /\ mem = <<>>
        /\ number = -1 /\ records = <<>> /\ index = <<>> /\ leg = 1
Write(p) == /\ p \in todo /\ todo' = todo \ {p}
            /\ file' = [g \in Cells |-> LET m == <<g[1] - Start(a, p, 1), g[2] - Start(a, p, 2)>> IN IF m \in Sel(a, p) THEN Array(a, p)[<<m[1] + ng, m[2] + ng>>] ELSE file[g]]
            /\ UNCHANGED <<n, ng, a, b, mem, number, records, index, leg>>
Read == /\ todo = {} /\ mem = <<>>
        /\ mem' = [p \in Blocks(b) |-> [m \in Sel(b, p) |-> file[<<m[1] + Start(b, p, 1), m[2] + Start(b, p, 2)>>]]]
        /\ UNCHANGED <<n, ng, a, b, file, todo, number, records, index, leg>>
(* one output: the record, then the index over all records *)
Output == /\ mem # <<>> /\ number < Outs
          /\ number' = number + 1 /\ records' = Append(records, [time |-> number + 1, id |-> number + 1])
          /\ index' = LET first == number' + 1 - Len(records') IN [i \in 1..Len(records') |-> [time |-> records'[i].time, file |-> first + i - 1]]
          /\ UNCHANGED <<n, ng, a, b, file, todo, mem, leg>>
(* a new execution continues from any file *)
Restart == /\ mem # <<>> /\ leg < Legs /\ number >= 0 /\ leg' = leg + 1 /\ records' = <<>>
           /\ number' \in 0..number /\ UNCHANGED <<n, ng, a, b, file, todo, mem, index>>
Next == (\E p \in todo : Write(p)) \/ Read \/ Output \/ Restart
Spec == Init /\ [][Next]_vars
Complete == todo = {} => \A g \in Cells : file[g] = Value(g)
NoGhost == \A g \in Cells : file[g] # Ghost
ReadBack == mem # <<>> => \A p \in Blocks(b) : \A m \in Sel(b, p) : mem[p][m] = Array(b, p)[<<m[1] + ng, m[2] + ng>>]
Indexed == \A i \in DOMAIN index : index[i].file = index[i].time
InOrder == \A i \in DOMAIN records : records[i].id = number - Len(records) + i
=============================================================================
