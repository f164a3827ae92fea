-------------------------------- MODULE OneHot --------------------------------
(* One-hot encoding of label columns (C08).                                  *)
(* TLC builds every table of up to MaxRows rows over Values for every number *)
(* of columns and every set of label columns; Encode is the specification.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxRows, MaxCols, Values      \* Values: set of integers

VARIABLES cols, labels, rows
vars == <<cols, labels, rows>>
Init == \E c \in 1..MaxCols : cols = c /\ labels \in SUBSET (0..c-1) /\ rows = <<>>
AddRow == Len(rows) < MaxRows /\ \E r \in [1..cols -> Values] : rows' = Append(rows, r) /\ UNCHANGED <<cols, labels>>
Next == AddRow
Spec == Init /\ [][Next]_vars

RECURSIVE SortedSet(_)
SortedSet(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedSet(S \ {m})
LabelCols == SortedSet(labels)                      \* 0-based, ascending
FeatureCols == SortedSet((0..cols-1) \ labels)
Distinct(c) == SortedSet({rows[i][c+1] : i \in 1..Len(rows)})
RECURSIVE Cat(_, _, _)
Cat(f, i, n) == IF i > n THEN <<>> ELSE f[i] \o Cat(f, i + 1, n)
Block(r, c) == LET d == Distinct(c) IN [k \in 1..Len(d) |-> IF d[k] = r[c+1] THEN 1 ELSE 0]
EncodeRow(r) ==
    LET feat == [k \in 1..Len(FeatureCols) |-> r[FeatureCols[k]+1]]
        bl == [k \in 1..Len(LabelCols) |-> Block(r, LabelCols[k])]
    IN feat \o Cat(bl, 1, Len(bl))
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Width == Len(FeatureCols) + Sum([k \in 1..Len(LabelCols) |-> Len(Distinct(LabelCols[k]))], Len(LabelCols))
NewLabels == SortedSet(Len(FeatureCols)..(Width-1))
Encoded == Cat([i \in 1..Len(rows) |-> EncodeRow(rows[i])], 1, Len(rows))

(* ------------------------------- properties ------------------------------ *)
Widths == \A i \in 1..Len(rows) : Len(EncodeRow(rows[i])) = Width
OneOne == \A i \in 1..Len(rows), k \in 1..Len(LabelCols) :
            Cardinality({j \in 1..Len(Distinct(LabelCols[k])) : Block(rows[i], LabelCols[k])[j] = 1}) = 1
Faithful == \A i, j \in 1..Len(rows) : (EncodeRow(rows[i]) = EncodeRow(rows[j])) <=> (rows[i] = rows[j])
Emit == PrintT(ToJson([c |-> cols, l |-> LabelCols, r |-> rows, e |-> Encoded, n |-> NewLabels, w |-> Width]))
===============================================================================
