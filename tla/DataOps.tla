-------------------------------- MODULE DataOps --------------------------------
(* Deriving data sets from data sets (C12): selecting, splitting, joining,    *)
(* shuffling, scaling, relabelling, regrouping, for every history of such     *)
(* operations on one data set.  Values are integers counting 1/U, so that     *)
(* scaling is exact; a scaling that would not be exact is not explored here.  *)
EXTENDS DataRows, TLC, Json
CONSTANTS U,          \* unit of the values
          Starts,     \* set of data sets to begin with
          Others,     \* sequence of data sets to join with
          Eighths,    \* fractions asked for, in eighths
          Ranges,     \* set of <<min, max>> in units
          LabSets, SeqSizes,
          MaxRows, MaxWidth, Depth, Shuffles
VARIABLES d, k, last
vars == <<d, k, last>>
View == d
Error == [error |-> TRUE]
Init == d \in Starts /\ k = 0 /\ last = [op |-> "start"]
Do(op, res) ==
    /\ k < Depth
    /\ d' = IF res = Error THEN d ELSE res
    /\ k' = k + 1
    /\ last' = op @@ [bad |-> (res = Error)]

SubRows(x, from, to) ==
    LET t == Min(to, Len(x.rows))
    IN IF from > t THEN Error ELSE Make(SubSeq(x.rows, from + 1, t), x.w, x.seq, x.labs)
Upto(x, e) == (Max(0, Min(e, 8)) * Len(x.rows)) \div 8
SplitAt(x, e) == IF x.seq = 0 THEN 0 ELSE ((Max(0, Min(e, 8)) * Len(x.rows)) \div (8 * x.seq)) * x.seq
Left(x, e) == SubRows(x, 0, SplitAt(x, e))
Right(x, e) == SubRows(x, SplitAt(x, e), Len(x.rows))
Fits(a, b, axis) ==
    /\ axis # 0 => NSeq(a) = NSeq(b)
    /\ axis # 1 => a.seq = b.seq
    /\ axis # 2 => a.w = b.w /\ a.labs = b.labs
Join(a, b, axis) ==
    IF a.rows = <<>> THEN b ELSE IF b.rows = <<>> THEN a
    ELSE IF axis > 2 \/ ~Fits(a, b, axis) THEN Error
    ELSE IF axis = 0 THEN Make(a.rows \o b.rows, a.w, a.seq, a.labs)
    ELSE IF axis = 1 THEN Make(Flat([i \in 1..NSeq(a) |-> SeqRows(a, i - 1) \o SeqRows(b, i - 1)]),
                               a.w, a.seq + b.seq, a.labs)
    ELSE Make([i \in 1..Len(a.rows) |-> a.rows[i] \o b.rows[i]], a.w + b.w, a.seq, {})
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Shuffled(x, p) == [x EXCEPT !.rows = [i \in 1..Len(x.rows) |-> x.rows[p[i]]]]
\* (v - lo) / (hi - lo), in units
Exact(v, lo, hi) == LET a == (v - lo) * U  b == hi - lo IN b # 0 /\ ((IF a < 0 THEN -a ELSE a) % (IF b < 0 THEN -b ELSE b)) = 0
Quot(v, lo, hi) ==
    LET a == (v - lo) * U  b == hi - lo  s == IF (a < 0) # (b < 0) THEN -1 ELSE 1
    IN s * ((IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b))
ScaleOk(x, lo, hi, cs) == \A r \in 1..Len(x.rows), c \in cs : Exact(x.rows[r][c + 1], lo, hi)
Scaled(x, lo, hi, cs) == [x EXCEPT !.rows = [r \in 1..Len(x.rows) |->
    [c \in 1..x.w |-> IF c - 1 \in cs THEN Quot(x.rows[r][c], lo, hi) ELSE x.rows[r][c]]]]
Column(x, c) == {x.rows[r][c] : r \in 1..Len(x.rows)}
Lo(x, c) == MinOf(Column(x, c))
Hi(x, c) == CHOOSE v \in Column(x, c) : \A u \in Column(x, c) : u <= v
NormOk(x) == \A c \in 1..x.w : \A v \in Column(x, c) : Lo(x, c) = Hi(x, c) \/ Exact(v, Lo(x, c), Hi(x, c))
\* a constant column has no range to be mapped: it becomes zero
Normed(x) == [x EXCEPT !.rows = [r \in 1..Len(x.rows) |->
    [c \in 1..x.w |-> IF Lo(x, c) = Hi(x, c) THEN 0 ELSE Quot(x.rows[r][c], Lo(x, c), Hi(x, c))]]]

Sub(f, t) == Do([op |-> "sub", from |-> f, to |-> t], SubRows(d, f, t))
SubFraction(e) == Do([op |-> "subp", e |-> e], SubRows(d, 0, Upto(d, e)))
Split(e, side) == Do([op |-> "split", e |-> e, side |-> side, l |-> Dump(Left(d, e)).shape, r |-> Dump(Right(d, e)).shape],
                     IF side = "l" THEN Left(d, e) ELSE Right(d, e))
JoinOther(j, axis) == Do([op |-> "join", j |-> j, axis |-> axis, first |-> TRUE], Join(d, Others[j], axis))
JoinAfter(j, axis) == Do([op |-> "join", j |-> j, axis |-> axis, first |-> FALSE], Join(Others[j], d, axis))
JoinSelf(axis) == Do([op |-> "self", axis |-> axis], Join(d, d, axis))
Shuffle == Shuffles /\ Len(d.rows) <= 4 /\ \E p \in Perms(Len(d.rows)) : Do([op |-> "shuffle"], Shuffled(d, p))
Scale(r, cs) == /\ r[1] # r[2] => ScaleOk(d, r[1], r[2], cs)
                /\ Do([op |-> "scale", lo |-> r[1], hi |-> r[2], cs |-> Cols(cs)],
                      IF r[1] = r[2] THEN Error ELSE Scaled(d, r[1], r[2], cs))
ScaleAll(r) == /\ r[1] # r[2] => ScaleOk(d, r[1], r[2], 0..(d.w - 1))
               /\ Do([op |-> "scale", lo |-> r[1], hi |-> r[2], cs |-> <<>>],
                     IF r[1] = r[2] THEN Error ELSE Scaled(d, r[1], r[2], 0..(d.w - 1)))
Normalise == NormOk(d) /\ Do([op |-> "norm"], Normed(d))
Relabel(l) == Do([op |-> "labs", l |-> Cols(l)], [d EXCEPT !.labs = {c \in l : c < d.w}])
Regroup(s) == Do([op |-> "seq", s |-> s], Make(d.rows, d.w, s, d.labs))
TakeInputs == Do([op |-> "inputs"], Inputs(d))
TakeLabels == Do([op |-> "labels"], Labels(d))
Next ==
    \/ \E f, t \in 0..(Len(d.rows) + 1) : Sub(f, t)
    \/ \E e \in Eighths : SubFraction(e) \/ Split(e, "l") \/ Split(e, "r")
    \/ \E j \in 1..Len(Others), axis \in 0..3 : JoinOther(j, axis) \/ JoinAfter(j, axis)
    \/ \E axis \in 0..3 : JoinSelf(axis)
    \/ Shuffle
    \/ \E r \in Ranges : ScaleAll(r) \/ \E cs \in (SUBSET (0..(d.w - 1))) \ {{}} : Scale(r, cs)
    \/ Normalise
    \/ \E l \in LabSets : Relabel(l)
    \/ \E s \in SeqSizes : Regroup(s)
    \/ TakeInputs \/ TakeLabels
Spec == Init /\ [][Next]_vars
Small == Len(d.rows) <= MaxRows /\ d.w <= MaxWidth

Inv == WellFormed(d) /\ Partition(d)
\* the laws of the property, independent of how the operations are defined above
Bag(ss) == [x \in {ss[i] : i \in 1..Len(ss)} |-> Cardinality({i \in 1..Len(ss) : ss[i] = x})]
Consecutive(a, b) == \E f \in 0..Len(b) : \E t \in f..Len(b) : a = SubSeq(b, f + 1, t)
Monotone(a, b, up) == \A r, s \in 1..Len(a) : \A c \in 1..Len(a[r]) :
    (a[r][c] <= a[s][c]) => IF up THEN b[r][c] <= b[s][c] ELSE TRUE
Law ==
    /\ last'.bad => d' = d
    /\ last'.op \in {"sub", "subp", "split"} /\ ~last'.bad =>
        /\ Consecutive(d'.rows, d.rows)
        /\ d'.rows # <<>> => d'.w = d.w /\ d'.labs = d.labs /\ d'.seq <= d.seq
    /\ last'.op = "split" =>
        /\ last'.l.data \o last'.r.data = Flat(d.rows)
        /\ d'.rows # <<>> => d'.seq = d.seq
    /\ last'.op = "join" /\ ~last'.bad =>
        Len(Flat(d'.rows)) = Len(Flat(d.rows)) + Len(Flat(Others[last'.j].rows))
    /\ last'.op = "self" /\ ~last'.bad => Len(Flat(d'.rows)) = 2 * Len(Flat(d.rows))
    /\ last'.op = "shuffle" => Bag(d'.rows) = Bag(d.rows) /\ Shape(d').w = d.w /\ d'.seq = d.seq /\ d'.labs = d.labs
    /\ last'.op = "norm" =>
        /\ Monotone(d.rows, d'.rows, TRUE)
        /\ \A r \in 1..Len(d'.rows), c \in 1..d.w : d'.rows[r][c] \in 0..U
        /\ \A c \in 1..d.w : d.rows # <<>> => Lo(d', c) = 0 /\ Hi(d', c) \in {0, U}
    /\ last'.op \in {"scale", "norm", "labs"} => d'.w = d.w /\ d'.seq = d.seq /\ Len(d'.rows) = Len(d.rows)
    /\ last'.op = "scale" /\ ~last'.bad /\ last'.lo < last'.hi => Monotone(d.rows, d'.rows, TRUE)
    /\ last'.op = "seq" => /\ Consecutive(d'.rows, d.rows)
                           /\ last'.s > 0 => Len(d.rows) - Len(d'.rows) < Max(1, d'.seq)
Laws == [][Law]_vars
Emit == PrintT(ToJson([a |-> d, o |-> last', b |-> d']))
=================================================================================
