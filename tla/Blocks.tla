-------------------------------- MODULE Blocks --------------------------------
(* Rectangular blocks of cells of any number of dimensions (C24).  A block is  *)
(* a record of its sides s and its cells v, in the order in which the library  *)
(* keeps them: the last side runs fastest.                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Times(a, b) == a * b
Size(s) == FoldLeft(Times, 1, s)
\* the weight of each coordinate in the position of a cell
Stride(s, k) == Size(SubSeq(s, k + 1, Len(s)))
Position(s, x) == 1 + FoldLeft(LAMBDA a, b : a + b, 0, [k \in 1..Len(s) |-> x[k] * Stride(s, k)])
Cell(s, i) == [k \in 1..Len(s) |-> ((i - 1) \div Stride(s, k)) % s[k]]
At(b, x) == b.v[Position(b.s, x)]
Side(s, ax, n) == [s EXCEPT ![ax] = n]
Shift(x, ax, d) == [x EXCEPT ![ax] = @ + d]
Make(s, F(_)) == [s |-> s, v |-> [i \in 1..Size(s) |-> F(Cell(s, i))]]

\* d with the cells that lie in off .. off + b.s[ax] - 1 on side ax replaced by b
Put(d, b, ax, off) ==
    Make(d.s, LAMBDA x : IF x[ax] >= off /\ x[ax] < off + b.s[ax] THEN At(b, Shift(x, ax, -off)) ELSE At(d, x))
\* the n layers of b that start at off on side ax
Cut(b, ax, off, n) == Make(Side(b.s, ax, n), LAMBDA x : At(b, Shift(x, ax, off)))

Agree(s, t, ax) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : k # ax => s[k] = t[k]
Join(a, b, ax) ==
    Make(Side(a.s, ax, a.s[ax] + b.s[ax]), LAMBDA x : IF x[ax] < a.s[ax] THEN At(a, x) ELSE At(b, Shift(x, ax, -a.s[ax])))
Fits(bs, ax) == \A i \in 1..Len(bs) : Agree(bs[1].s, bs[i].s, ax)
JoinAll(bs, ax) == FoldLeft(LAMBDA a, b : Join(a, b, ax), bs[1], Tail(bs))
Sum(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
\* b taken apart into pieces of ks[1], ks[2], .. layers
Part(b, ax, ks) == [i \in 1..Len(ks) |-> Cut(b, ax, Sum(SubSeq(ks, 1, i - 1)), ks[i])]
===============================================================================
