------------------------------- MODULE DataRows -------------------------------
(* The value of a data set (source/data/dataset.hpp) and its construction,   *)
(* shared by DataBuild (C11) and DataOps (C12).  A data set is a record      *)
(*   [w |-> row width, seq |-> rows per sequence, labs |-> label columns,    *)
(*    rows |-> sequence of rows].                                            *)
EXTENDS Integers, Sequences, FiniteSets
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
None == [w |-> 0, seq |-> 0, labs |-> {}, rows |-> <<>>]
Cols(S) == LET RECURSIVE F(_)
               F(s) == IF s = {} THEN <<>> ELSE <<MinOf(s)>> \o F(s \ {MinOf(s)})
           IN F(S)

\* whole sequences of the rows; a data set without a row has no width
Make(rows, w, s, labs) ==
    IF w = 0 \/ rows = <<>> \/ s = 0 THEN None
    ELSE LET q == Min(s, Len(rows))
             n == (Len(rows) \div q) * q
         IN [w |-> w, seq |-> q, labs |-> {c \in labs : c < w}, rows |-> SubSeq(rows, 1, n)]
FromVec(data, w, s, labs) ==
    LET v == Min(w, Len(data))
    IN IF v = 0 THEN None
       ELSE Make([r \in 1..(Len(data) \div v) |-> SubSeq(data, (r - 1) * v + 1, r * v)], v, s, labs)
FromMat(rows, s, labs) ==
    IF rows = <<>> THEN None
    ELSE LET v == MinOf({Len(rows[r]) : r \in 1..Len(rows)})
         IN Make([r \in 1..Len(rows) |-> SubSeq(rows[r], 1, v)], v, s, labs)
FromCub(seqs, labs) ==
    IF seqs = <<>> \/ \E k \in 1..Len(seqs) : seqs[k] = <<>> THEN None
    ELSE LET q == MinOf({Len(seqs[k]) : k \in 1..Len(seqs)})
             v == MinOf(UNION {{Len(seqs[k][r]) : r \in 1..Len(seqs[k])} : k \in 1..Len(seqs)})
         IN Make([i \in 1..(q * Len(seqs)) |->
                    SubSeq(seqs[(i - 1) \div q + 1][((i - 1) % q) + 1], 1, v)], v, q, labs)

Pick(row, cols) == [i \in 1..Len(cols) |-> row[cols[i] + 1]]
LabCols(d) == Cols(d.labs)
InCols(d) == Cols(0..(d.w - 1) \ d.labs)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
NSeq(d) == IF d.seq = 0 THEN 0 ELSE Len(d.rows) \div d.seq
SeqRows(d, k) == SubSeq(d.rows, k * d.seq + 1, (k + 1) * d.seq)
Project(d, cols) == Make([r \in 1..Len(d.rows) |-> Pick(d.rows[r], cols)], Len(cols), d.seq, {})
Inputs(d) == Project(d, InCols(d))
Labels(d) == Project(d, LabCols(d))

\* what every accessor answers
Shape(d) == [w |-> d.w, seq |-> d.seq, size |-> Len(d.rows), data |-> Flat(d.rows)]
Dump(d) == [shape |-> Shape(d), in_idx |-> InCols(d), lab_idx |-> LabCols(d),
    entry |-> d.rows,
    input |-> [r \in 1..Len(d.rows) |-> Pick(d.rows[r], InCols(d))],
    label |-> [r \in 1..Len(d.rows) |-> Pick(d.rows[r], LabCols(d))],
    entry_seq |-> [k \in 1..NSeq(d) |-> Flat(SeqRows(d, k - 1))],
    input_seq |-> [k \in 1..NSeq(d) |-> Flat([i \in 1..d.seq |-> Pick(SeqRows(d, k - 1)[i], InCols(d))])],
    label_seq |-> [k \in 1..NSeq(d) |-> Flat([i \in 1..d.seq |-> Pick(SeqRows(d, k - 1)[i], LabCols(d))])],
    inputs |-> Shape(Inputs(d)), labels |-> Shape(Labels(d))]

WellFormed(d) ==
    /\ \A r \in 1..Len(d.rows) : Len(d.rows[r]) = d.w
    /\ (d.rows # <<>>) => d.w > 0 /\ d.seq > 0 /\ Len(d.rows) % d.seq = 0
    /\ d.labs \subseteq 0..(d.w - 1)
\* inputs and labels partition every row
Partition(d) == \A r \in 1..Len(d.rows) :
    \A c \in 1..d.w : LET i == {k \in 1..Len(InCols(d)) : InCols(d)[k] = c - 1}
                          l == {k \in 1..Len(LabCols(d)) : LabCols(d)[k] = c - 1}
                      IN /\ Cardinality(i) + Cardinality(l) = 1
                         /\ \A k \in i : Pick(d.rows[r], InCols(d))[k] = d.rows[r][c]
                         /\ \A k \in l : Pick(d.rows[r], LabCols(d))[k] = d.rows[r][c]
===============================================================================
