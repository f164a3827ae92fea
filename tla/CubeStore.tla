------------------------------- MODULE CubeStore ------------------------------
(* A store of cubes that are joined and taken apart (C24).  Joining cubes that *)
(* do not agree on the other sides, on a side that does not exist, is refused  *)
(* and changes nothing.                                                        *)
EXTENDS Blocks, TLC, Json
CONSTANTS H, Shapes, MaxCells, Depth, Modes
VARIABLES cube, last
vars == <<cube, last>>
View == <<cube, TLCGet("level")>>
Hs == 1..H
Fresh(s, tag) == LET b == Make(s, LAMBDA x : 0) IN [b EXCEPT !.v = [i \in 1..Len(b.v) |-> 100 * tag + i]]
Init == \E f \in [Hs -> Shapes] : cube = [h \in Hs |-> Fresh(f[h], h)] /\ last = [op |-> "new"]

Say(op, dst, src, ax, ks, r) == last' = [op |-> op, d |-> dst, s |-> src, ax |-> ax - 1, ks |-> ks, r |-> r]
\* two: the two cubes in places of their own; many: packed one after the other
JoinInto(mode, dst, src, ax) ==
    LET bs == [i \in 1..Len(src) |-> cube[src[i]]] IN
    IF ax <= 3 /\ Fits(bs, ax)
    THEN /\ Size(JoinAll(bs, ax).s) <= MaxCells
         /\ cube' = [cube EXCEPT ![dst] = JoinAll(bs, ax)]
         /\ Say("join-" \o mode, <<dst>>, src, ax, <<>>, "ok")
    ELSE UNCHANGED cube /\ Say("join-" \o mode, <<dst>>, src, ax, <<>>, "refused")
PartInto(mode, dst, src, ax, ks) ==
    LET bs == Part(cube[src], ax, ks) IN
    /\ cube' = [h \in Hs |-> IF \E i \in 1..Len(dst) : dst[i] = h
                             THEN bs[CHOOSE i \in 1..Len(dst) : dst[i] = h] ELSE cube[h]]
    /\ Say("part-" \o mode, dst, <<src>>, ax, ks, "ok")
\* pieces that do not agree, or a side that does not exist
BadPart(mode, dst, src, ax) ==
    /\ UNCHANGED cube
    /\ Say("part-" \o mode, dst, <<src>>, ax, <<>>, "refused")
Pairs == {t \in Hs \X Hs : t[1] # t[2]}
Lists == {<<a>> : a \in Hs} \cup (Hs \X Hs) \cup (IF H > 2 THEN Hs \X Hs \X Hs ELSE {})
Dsts(k) == {t \in [1..k -> Hs] : \A i, j \in 1..k : i # j => t[i] # t[j]}
Cuts(n, k) == {t \in [1..k -> 0..n] : Sum(t) = n}
Next == /\ TLCGet("level") <= Depth
        /\ \/ "two" \in Modes /\ \E d \in Hs, t \in Hs \X Hs, ax \in 1..4 : JoinInto("two", d, t, ax)
           \/ "many" \in Modes /\ \E d \in Hs, t \in Lists, ax \in 1..4 : JoinInto("many", d, t, ax)
           \/ "two" \in Modes /\ \E s \in Hs, t \in Dsts(2), ax \in 1..3 : \E ks \in Cuts(cube[s].s[ax], 2) : PartInto("two", t, s, ax, ks)
           \/ "many" \in Modes /\ \E s \in Hs, m \in 1..H, ax \in 1..3 : \E t \in Dsts(m) : \E ks \in Cuts(cube[s].s[ax], m) : PartInto("many", t, s, ax, ks)
           \/ \E mode \in Modes, s \in Hs, t \in Dsts(2), ax \in 1..4 : BadPart(mode, t, s, ax)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------- laws of the cubes *)
Twos == {<<a, b, ax>> \in Hs \X Hs \X (1..3) : Agree(cube[a].s, cube[b].s, ax)}
TakenApart == \A t \in Twos : LET a == cube[t[1]] b == cube[t[2]] IN
    Part(Join(a, b, t[3]), t[3], <<a.s[t[3]], b.s[t[3]]>>) = <<a, b>>
Glue == \A h \in Hs, ax \in 1..3 : \A ks \in Cuts(cube[h].s[ax], 2) :
    LET p == Part(cube[h], ax, ks) IN Join(p[1], p[2], ax) = cube[h]
Associative == \A t \in Twos, c \in Hs : Agree(cube[t[1]].s, cube[c].s, t[3]) =>
    Join(Join(cube[t[1]], cube[t[2]], t[3]), cube[c], t[3]) = Join(cube[t[1]], Join(cube[t[2]], cube[c], t[3]), t[3])
\* joining on the first side lays the cells one after the other
FirstSide == \A t \in Twos : t[3] = 1 => Join(cube[t[1]], cube[t[2]], 1).v = cube[t[1]].v \o cube[t[2]].v
\* joining is putting both into place, in either order
ByPut == \A t \in Twos : LET a == cube[t[1]] b == cube[t[2]] ax == t[3]
                            e == Make(Side(a.s, ax, a.s[ax] + b.s[ax]), LAMBDA x : 0)
    IN Join(a, b, ax) = Put(Put(e, a, ax, 0), b, ax, a.s[ax]) /\ Join(a, b, ax) = Put(Put(e, b, ax, a.s[ax]), a, ax, 0)
Frame == [][\A h \in Hs : (last'.r = "refused" \/ \A i \in 1..Len(last'.d) : last'.d[i] # h) => cube'[h] = cube[h]]_vars
Emit == PrintT(ToJson([a |-> [c |-> cube, l |-> TLCGet("level")], o |-> last', b |-> [c |-> cube', l |-> TLCGet("level") + 1]]))
===============================================================================
