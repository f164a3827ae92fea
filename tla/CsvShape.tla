------------------------------- MODULE CsvShape -------------------------------
(* The text of a CSV file and its shape (C07).                               *)
(* A file is read token by token (a nonempty field text, a separator, the    *)
(* end of a line); the state is the table read so far.  The file may end     *)
(* anywhere.  FieldType is the type of each field text (see TypeText).       *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Fields,      \* nonempty field texts (ids)
          FieldType,   \* their types
          MaxTok, MaxLines

VARIABLES toks, done, cur    \* tokens; finished lines; the line being read
vars == <<toks, done, cur>>
\* a line is a nonempty sequence of fields; "" is the empty field
Init == toks = <<>> /\ done = <<>> /\ cur = <<"">>
Room == Len(toks) < MaxTok
Field == Room /\ cur[Len(cur)] = "" /\ \E f \in Fields :
           toks' = Append(toks, f) /\ cur' = [cur EXCEPT ![Len(cur)] = f] /\ UNCHANGED done
Sep == Room /\ toks' = Append(toks, ",") /\ cur' = Append(cur, "") /\ UNCHANGED done
Newline == Room /\ Len(done) < MaxLines /\ toks' = Append(toks, "nl") /\ done' = Append(done, cur) /\ cur' = <<"">>
Next == Field \/ Sep \/ Newline
Spec == Init /\ [][Next]_vars

\* a last line without a final newline counts if there is any text on it
Lines == IF cur = <<"">> THEN done ELSE Append(done, cur)
Header == IF Lines = <<>> THEN <<"">> ELSE Lines[1]
First == IF Len(Lines) > 1 THEN Lines[2] ELSE <<"">>
Cols == Len(Header)
TypeOf(f) == IF f = "" THEN "NONE" ELSE FieldType[f]
At(l, j) == IF j <= Len(l) THEN l[j] ELSE ""
Types == [j \in 1..Cols |-> TypeOf(At(First, j))]

\* the text of the file is its lines, joined
Join(l) == LET f[i \in 0..Len(l)] == IF i = 0 THEN <<>>
                 ELSE f[i-1] \o (IF i > 1 THEN <<",">> ELSE <<>>) \o (IF l[i] = "" THEN <<>> ELSE <<l[i]>>)
           IN f[Len(l)]
JoinAll == LET f[i \in 0..Len(done)] == IF i = 0 THEN <<>> ELSE f[i-1] \o Join(done[i]) \o <<"nl">>
           IN f[Len(done)] \o Join(cur)
Lossless == JoinAll = toks
Rectangular == Len(Types) = Cols /\ Cols >= 1
Emit == PrintT(ToJson([t |-> toks, l |-> Lines, c |-> Cols, y |-> Types]))
=============================================================================
