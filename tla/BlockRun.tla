------------------------------- MODULE BlockRun -------------------------------
(* One block written to and read from in slabs on any of its sides (C24):      *)
(* append replaces the cells of a slab and nothing else, extract reads one and *)
(* changes nothing, a side that does not exist is refused by the checked forms.*)
EXTENDS Blocks, TLC, Json
CONSTANTS Shapes, Depth
VARIABLES d, last
vars == <<d, last>>
View == <<d, TLCGet("level")>>

Init == \E s \in Shapes : d = Make(s, LAMBDA x : 0) /\ last = [op |-> "new"]
\* different cells for every slab that can be appended
Source(s, tag) == LET b == Make(s, LAMBDA x : 0) IN [b EXCEPT !.v = [i \in 1..Len(b.v) |-> 100 * tag + i]]
AppendSlab(tag, ax, off, n) ==
    LET b == Source(Side(d.s, ax, n), tag)
    IN /\ d' = Put(d, b, ax, off)
       /\ last' = [op |-> "append", ax |-> ax - 1, off |-> off, n |-> n, src |-> b.v, r |-> "ok"]
Extract(ax, off, n) ==
    /\ UNCHANGED d
    /\ last' = [op |-> "extract", ax |-> ax - 1, off |-> off, n |-> n, r |-> Cut(d, ax, off, n).v]
Refuse(op, k) ==
    /\ UNCHANGED d
    /\ last' = [op |-> op, ax |-> Len(d.s) + k, off |-> 0, n |-> 1, src |-> <<7>>, r |-> "refused"]
Slabs == {t \in (1..Len(d.s)) \X (0..4) \X (0..4) : t[2] + t[3] <= d.s[t[1]]}
Next == /\ TLCGet("level") <= Depth
        /\ \/ \E t \in Slabs : AppendSlab(TLCGet("level"), t[1], t[2], t[3])
           \/ \E t \in Slabs : Extract(t[1], t[2], t[3])
           \/ \E op \in {"append", "extract"}, k \in {0, 1} : Refuse(op, k)
Spec == Init /\ [][Next]_vars

Whole == Len(d.v) = Size(d.s)
\* what was put in is read back, and nothing else has changed
ReadBack == [][last'.op = "append" /\ last'.r = "ok" =>
    /\ Cut(d', last'.ax + 1, last'.off, last'.n).v = last'.src
    /\ \A i \in 1..Len(d.v) : LET c == Cell(d.s, i)[last'.ax + 1] IN
           c < last'.off \/ c >= last'.off + last'.n => d'.v[i] = d.v[i]]_vars
\* positions and cells are inverse to each other, the last side runs fastest
Layout == /\ \A i \in 1..Size(d.s) : Position(d.s, Cell(d.s, i)) = i
          /\ \A i \in 1..(Size(d.s) - 1) : LET n == Len(d.s) IN
                Cell(d.s, i)[n] < d.s[n] - 1 => Cell(d.s, i + 1) = [Cell(d.s, i) EXCEPT ![n] = @ + 1]
Emit == PrintT(ToJson([a |-> [b |-> d, l |-> TLCGet("level")], o |-> last', b |-> [b |-> d', l |-> TLCGet("level") + 1]]))
===============================================================================
