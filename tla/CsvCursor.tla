------------------------------ MODULE CsvCursor ------------------------------
(* Access to the rows of a CSV file (C06).                                   *)
(*                                                                           *)
(* A file has N lines, line 0 the header.  The reader keeps one cached row;  *)
(* an iterator keeps the line it asked for last (held, at), how many lines   *)
(* its stream has consumed (pos) and the row it is moved to (req), and       *)
(* catches up with the stream only when it is dereferenced.                  *)
(* The properties say that none of this can be observed.                     *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N,        \* lines of the file, at least 1
          Names,    \* iterator names
          MaxIdx    \* largest row index asked for

VARIABLES cache,    \* row held in the reader's cache
          it,       \* iterators, or NoIt
          last
vars == <<cache, it, last>>
View == <<cache, it>>
NoIt == [req |-> 0, at |-> 0, held |-> 0, pos |-> 0]      \* pos = 0: does not exist
Live(x) == it[x].pos > 0
At0 == [at |-> 0, held |-> 0, pos |-> 1]
New(r) == [req |-> r, at |-> 0, held |-> 0, pos |-> 1]
End == IF N > 1 THEN N ELSE 1
Op(n, a, r) == last' = [op |-> n, a |-> a, r |-> r]

Init == cache = 1 /\ it = [x \in Names |-> NoIt] /\ last = [op |-> "open", a |-> <<>>, r |-> 0]

\* reading line i through the cache
Through(i) == IF cache = i THEN i ELSE i          \* what the stream yields after skipping i lines
Index == \E i \in 0..MaxIdx : LET k == i % N IN
    /\ cache' = k /\ Op("index", <<i>>, Through(k)) /\ UNCHANGED it
Entry == \E i \in 0..MaxIdx : LET k == (i + 1) % N IN
    /\ cache' = k /\ Op("entry", <<i>>, Through(k)) /\ UNCHANGED it
Begin == \E x \in Names : it' = [it EXCEPT ![x] = New(1)] /\ Op("begin", <<x>>, 0) /\ UNCHANGED cache
EndIt == \E x \in Names : it' = [it EXCEPT ![x] = New(End)] /\ Op("end", <<x>>, 0) /\ UNCHANGED cache
Inc == \E x \in Names : Live(x) /\ it[x].req < N + 1
    /\ it' = [it EXCEPT ![x].req = @ + 1] /\ Op("inc", <<x>>, 0) /\ UNCHANGED cache
Dec == \E x \in Names : Live(x) /\ it[x].req > 0
    /\ it' = [it EXCEPT ![x].req = @ - 1] /\ Op("dec", <<x>>, 0) /\ UNCHANGED cache
\* a copy keeps the row it is moved to, and starts with a stream of its own
Copy == \E x, y \in Names : x # y /\ Live(x)
    /\ it' = [it EXCEPT ![y] = New(it[x].req)] /\ Op("copy", <<x, y>>, 0) /\ UNCHANGED cache
PostInc == \E x, y \in Names : x # y /\ Live(x) /\ it[x].req < N + 1
    /\ it' = [it EXCEPT ![y] = New(it[x].req), ![x].req = @ + 1] /\ Op("postinc", <<x, y>>, 0) /\ UNCHANGED cache
PostDec == \E x, y \in Names : x # y /\ Live(x) /\ it[x].req > 0
    /\ it' = [it EXCEPT ![y] = New(it[x].req), ![x].req = @ - 1] /\ Op("postdec", <<x, y>>, 0) /\ UNCHANGED cache
\* catch up with the stream
CatchUp(v) ==
    LET w == IF v.req < v.at THEN [v EXCEPT !.at = 0, !.held = 0, !.pos = 1] ELSE v
        skip == IF w.req > w.at + 1 THEN w.req - (w.at + 1) ELSE 0
    IN IF w.at = w.req THEN w
       ELSE [w EXCEPT !.held = w.pos + skip, !.pos = w.pos + skip + 1, !.at = w.req]
Deref == \E x \in Names : Live(x) /\ it[x].req < N
    /\ it' = [it EXCEPT ![x] = CatchUp(@)] /\ Op("deref", <<x>>, CatchUp(it[x]).held) /\ UNCHANGED cache
Eq == \E x, y \in Names : Live(x) /\ Live(y)
    /\ Op("eq", <<x, y>>, IF it[x].req = it[y].req THEN 1 ELSE 0) /\ UNCHANGED <<cache, it>>
CopyReader == Op("copyreader", <<>>, 0) /\ UNCHANGED <<cache, it>>
AssignReader == Op("assignreader", <<>>, 0) /\ UNCHANGED <<cache, it>>
Whole == \E w \in {"lines", "rowsvec", "foreach", "header", "amounts"} : Op(w, <<>>, 0) /\ UNCHANGED <<cache, it>>

Next == Index \/ Entry \/ Begin \/ EndIt \/ Inc \/ Dec \/ Copy \/ PostInc \/ PostDec \/ Deref \/ Eq
        \/ CopyReader \/ AssignReader \/ Whole
Spec == Init /\ [][Next]_vars

StreamInStep == \A x \in Names : Live(x) => it[x].pos = it[x].at + 1 /\ it[x].held = it[x].at
RowIsLine == [][last'.op = "deref" => last'.r = it[last'.a[1]].req]_vars
IndexIsLine == [][/\ last'.op = "index" => last'.r = last'.a[1] % N
                  /\ last'.op = "entry" => last'.r = (last'.a[1] + 1) % N]_vars
\* walking from begin() by increments reaches end() after the data rows
Distance == N > 1 => End - 1 = N - 1
Emit == PrintT(ToJson([a |-> View, o |-> last', b |-> View']))
=============================================================================
