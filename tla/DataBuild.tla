------------------------------ MODULE DataBuild -------------------------------
(* Construction of data sets (C11): every way to lay out numbered cells as a *)
(* flat vector, (ragged) rows or (ragged) sequences, every row width,        *)
(* sequence length and set of label columns, as a machine that appends cells,*)
(* rows and sequences one by one.                                            *)
EXTENDS DataRows, TLC, Json
CONSTANTS Kind,       \* "vec", "mat", "cub"
          MaxCells, MaxRows, MaxSeqs, MaxLen,
          Widths, Seqs, LabSets
VARIABLES vec, mat, cub, n      \* n: number of the next cell
vars == <<vec, mat, cub, n>>
Init == vec = <<>> /\ mat = <<>> /\ cub = <<>> /\ n = 1
Cells(k) == [i \in 1..k |-> n + i - 1]
Cell == Kind = "vec" /\ Len(vec) < MaxCells /\ vec' = Append(vec, n) /\ n' = n + 1 /\ UNCHANGED <<mat, cub>>
Row(k) == Kind = "mat" /\ Len(mat) < MaxRows /\ mat' = Append(mat, Cells(k)) /\ n' = n + k /\ UNCHANGED <<vec, cub>>
Sequence_ == Kind = "cub" /\ Len(cub) < MaxSeqs /\ cub' = Append(cub, <<>>) /\ UNCHANGED <<vec, mat, n>>
SeqRow(k) == /\ Kind = "cub" /\ cub # <<>> /\ Len(cub[Len(cub)]) < MaxRows
             /\ cub' = [cub EXCEPT ![Len(cub)] = Append(@, Cells(k))] /\ n' = n + k /\ UNCHANGED <<vec, mat>>
Next == Cell \/ Sequence_ \/ \E k \in 0..MaxLen : Row(k) \/ SeqRow(k)
Spec == Init /\ [][Next]_vars

Of(w, s, l) == IF Kind = "vec" THEN FromVec(vec, w, s, l)
               ELSE IF Kind = "mat" THEN FromMat(mat, s, l) ELSE FromCub(cub, l)
Ws == IF Kind = "vec" THEN Widths ELSE {0}
Ss == IF Kind = "cub" THEN {0} ELSE Seqs
Given == IF Kind = "vec" THEN vec ELSE IF Kind = "mat" THEN Flat(mat) ELSE Flat(Flat(cub))
Holds(d) ==
    /\ WellFormed(d)
    /\ Partition(d)
    /\ \* cells keep their order, none is invented
       LET f == Flat(d.rows) IN \A i \in 1..(Len(f) - 1) : f[i] < f[i + 1]
    /\ \A i \in 1..Len(Flat(d.rows)) : Flat(d.rows)[i] \in 1..(n - 1)
    /\ \* from a flat vector only an incomplete sequence is dropped
       (Kind = "vec" /\ d # None) => /\ Flat(d.rows) = SubSeq(vec, 1, Len(d.rows) * d.w)
                                    /\ Len(vec) - Len(d.rows) * d.w < d.w * d.seq
    /\ (Kind = "mat" /\ d # None) => Len(mat) - Len(d.rows) < d.seq
    /\ (Kind = "cub" /\ d # None) => NSeq(d) = Len(cub)
    /\ \* rows and sequences are the same cells
       Flat(Dump(d).entry_seq) = Flat(Dump(d).entry)
\* every column changes its role: what was given out as input is a label now
Turned(d) == [d EXCEPT !.labs = 0..(d.w - 1) \ @]
Roles(d) == /\ WellFormed(Turned(d)) /\ Partition(Turned(d)) /\ Turned(Turned(d)) = d
            /\ Dump(Turned(d)).input = Dump(d).label /\ Dump(Turned(d)).label_seq = Dump(d).input_seq
Right == \A w \in Ws, s \in Ss, l \in LabSets : Holds(Of(w, s, l)) /\ Roles(Of(w, s, l))
Emit == \A w \in Ws, s \in Ss, l \in LabSets :
    PrintT(ToJson([vec |-> vec, mat |-> mat, cub |-> cub, w |-> w, s |-> s, l |-> Cols(l), d |-> Dump(Of(w, s, l)), t |-> Dump(Turned(Of(w, s, l)))]))
===============================================================================
