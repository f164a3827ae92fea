------------------------------- MODULE Pipeline -------------------------------
(* From a file to a data set (C27).  A file holds a table and some of its      *)
(* columns are labels; a reader of the file is asked for rows, for the         *)
(* distinct values of a column and for data sets, in either encoding of the    *)
(* labels and with every length of sequences, in any order.  Whatever was      *)
(* asked before, the data set has the rows of the file: Make of DataRows over  *)
(* Encode of OneHot.                                                           *)
EXTENDS OneHot
CONSTANTS Seqs, Reads, MaxAsk, Tables   \* Tables: <<columns, labels, rows>>; empty: they grow
VARIABLES asked, was, last      \* was: what the reader was asked last
pvars == <<cols, labels, rows, asked, was, last>>
View == <<cols, labels, rows, asked = 0, was>>
D == INSTANCE DataRows

Plain == [i \in 1..Len(rows) |-> [c \in 1..cols |-> rows[i][c]]]
Hot == [i \in 1..Len(rows) |-> EncodeRow(rows[i])]
Range(s) == {s[i] : i \in 1..Len(s)}
Parsed(enc, s) ==
    IF enc = "one" THEN D!Make(Hot, Width, s, Range(NewLabels)) ELSE D!Make(Plain, cols, s, labels)

PInit == /\ IF Tables = {} THEN Init
            ELSE \E t \in Tables : cols = t[1] /\ labels = t[2] /\ rows = t[3]
         /\ asked = 0 /\ was = "nothing" /\ last = [op |-> "nothing"]
Grow == Tables = {} /\ asked = 0 /\ AddRow /\ last' = [op |-> "grow"] /\ UNCHANGED <<asked, was>>
Ask(o) == /\ asked < MaxAsk /\ asked' = asked + 1 /\ was' = ToString([x \in DOMAIN o \ {"a"} |-> o[x]]) /\ last' = o
          /\ UNCHANGED <<cols, labels, rows>>
Parse(enc, s) == Ask([op |-> "parse", enc |-> enc, s |-> s, a |-> Parsed(enc, s)])
Entry(i) == i < Len(rows) /\ Ask([op |-> "entry", i |-> i, a |-> Plain[i + 1]])
Unique(c) == c < cols /\ Ask([op |-> "unique", c |-> c, a |-> Distinct(c)])
Copy == Ask([op |-> "copy", a |-> TRUE])
PNext == Grow \/ \E s \in Seqs : Parse("one", s) \/ Parse("def", s) \/ \E i \in Reads : Entry(i) \/ Unique(i) \/ Copy
PSpec == PInit /\ [][PNext]_pvars

\* rows of the data set and rows of the file belong together; equal labels have
\* equal blocks, the inputs are the columns that are no labels
Belong == \A enc \in {"one", "def"}, s \in Seqs :
    LET d == Parsed(enc, s) IN
    /\ D!WellFormed(d) /\ D!Partition(d)
    /\ Len(d.rows) <= Len(rows)
    /\ (d # D!None) => \A i \in 1..Len(d.rows) :
         /\ D!Pick(d.rows[i], D!InCols(d)) = [k \in 1..Len(FeatureCols) |-> rows[i][FeatureCols[k] + 1]]
         /\ \A j \in 1..Len(d.rows) :
              (D!Pick(d.rows[i], D!LabCols(d)) = D!Pick(d.rows[j], D!LabCols(d))) <=> \A c \in labels : rows[i][c + 1] = rows[j][c + 1]
    /\ (d # D!None) => Len(rows) - Len(d.rows) < d.seq
    /\ (d = D!None) <=> (rows = <<>> \/ s = 0)
PEmit == asked' > 0 => PrintT(ToJson([a |-> View, o |-> last', b |-> View', l |-> LabelCols]))
===============================================================================
