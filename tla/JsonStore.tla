------------------------------ MODULE JsonStore ------------------------------
(* The container interface of JSON items (C05): H handles, each holding an   *)
(* item (a tree).  Handles are values: every action changes at most the      *)
(* addressed place of one handle.                                            *)
(*                                                                           *)
(* A path is a sequence of steps, [i |-> n] (index) or [k |-> key].  Mutable *)
(* navigation (operator[]) creates a missing key and turns an empty item     *)
(* into a dictionary; constant navigation (at) never changes anything.       *)
EXTENDS JsonData, Integers
CONSTANTS H, LeafTexts, KeySet, MaxNodes, MaxList, MaxPath

VARIABLES item, last
vars == <<item, last>>
View == item

Hs == 1..H
IdxStep(n) == [i |-> n, k |-> ""]
KeyStep(x) == [i |-> -1, k |-> x]
IsIdx(st) == st.i >= 0
Steps == {IdxStep(n) : n \in 0..MaxList} \cup {KeyStep(x) : x \in KeySet}
RECURSIVE Paths(_)
Paths(n) == IF n = 0 THEN {<<>>} ELSE Paths(n - 1) \cup {Append(p, s) : p \in {q \in Paths(n - 1) : Len(q) = n - 1}, s \in Steps}
AllPaths == Paths(MaxPath)

Bad == [k |-> "bad"]
RECURSIVE Get(_, _)
Get(t, p) == IF p = <<>> THEN t
             ELSE LET s == Head(p) IN
                  IF IsIdx(s) THEN IF t.k = "list" /\ s.i < Len(t.s) THEN Get(t.s[s.i + 1], Tail(p)) ELSE Bad
                  ELSE IF t.k = "dict" /\ s.k \in DOMAIN t.m THEN Get(t.m[s.k], Tail(p)) ELSE Bad

\* Mutable navigation: the tree after it and whether it succeeded.
RECURSIVE Nav(_, _)
Nav(t, p) ==
    IF p = <<>> THEN [t |-> t, ok |-> TRUE]
    ELSE LET s == Head(p) IN
         IF IsIdx(s)
         THEN IF t.k = "list" /\ s.i < Len(t.s)
              THEN LET r == Nav(t.s[s.i + 1], Tail(p))
                   IN [t |-> [t EXCEPT !.s = [@ EXCEPT ![s.i + 1] = r.t]], ok |-> r.ok]
              ELSE [t |-> t, ok |-> FALSE]
         ELSE IF t.k \in {"none", "dict"}
              THEN LET m == IF t.k = "none" THEN NoKeys ELSE t.m
                       r == Nav(IF s.k \in DOMAIN m THEN m[s.k] ELSE None, Tail(p))
                   IN [t |-> Dict([x \in DOMAIN m \cup {s.k} |-> IF x = s.k THEN r.t ELSE m[x]]), ok |-> r.ok]
              ELSE [t |-> t, ok |-> FALSE]
\* Replace the item at an existing path.
RECURSIVE Put(_, _, _)
Put(t, p, v) ==
    IF p = <<>> THEN v
    ELSE LET s == Head(p) IN
         IF IsIdx(s) THEN [t EXCEPT !.s = [@ EXCEPT ![s.i + 1] = Put(@, Tail(p), v)]]
         ELSE [t EXCEPT !.m = [@ EXCEPT ![s.k] = Put(@, Tail(p), v)]]

AppendTo(t, v) == CASE t.k = "none" -> [t |-> List(<<v>>), ok |-> TRUE]
                    [] t.k = "list" -> [t |-> List(Append(t.s, v)), ok |-> TRUE]
                    [] OTHER -> [t |-> t, ok |-> FALSE]
Size(t) == CASE t.k = "list" -> Len(t.s) [] t.k = "dict" -> Cardinality(DOMAIN t.m) [] OTHER -> 0

OK == [r |-> "ok"]
ERR == [r |-> "err"]
Op(n, a, r) == last' = [op |-> n, a |-> a, r |-> r]
Total(st) == LET f[i \in 0..H] == IF i = 0 THEN 0 ELSE f[i-1] + Nodes(st[i]) IN f[H]
RECURSIVE Fits(_)
Fits(t) == CASE t.k = "list" -> Len(t.s) <= MaxList /\ \A i \in 1..Len(t.s) : Fits(t.s[i])
             [] t.k = "dict" -> \A x \in DOMAIN t.m : Fits(t.m[x])
             [] OTHER -> TRUE
Become(h, t) == item' = [item EXCEPT ![h] = t]
Small == Total(item') <= MaxNodes /\ \A h \in Hs : Fits(item'[h])

Init == item = [h \in Hs |-> None] /\ last = [op |-> "init", a |-> <<>>, r |-> OK]

SetLeaf == \E h \in Hs, p \in AllPaths, v \in LeafTexts :
    LET n == Nav(item[h], p) IN
    /\ Become(h, IF n.ok THEN Put(n.t, p, Leaf(v)) ELSE n.t) /\ Small
    /\ Op("set", <<h, p, Leaf(v)>>, IF n.ok THEN OK ELSE ERR)
SetEmpty == \E h \in Hs, p \in AllPaths, v \in {None, List(<<>>), Dict(NoKeys)} :
    LET n == Nav(item[h], p) IN
    /\ Become(h, IF n.ok THEN Put(n.t, p, v) ELSE n.t) /\ Small
    /\ Op("set", <<h, p, v>>, IF n.ok THEN OK ELSE ERR)
Touch == \E h \in Hs, p \in AllPaths : p # <<>> /\
    LET n == Nav(item[h], p) IN
    /\ Become(h, n.t) /\ Small /\ Op("touch", <<h, p>>, IF n.ok THEN OK ELSE ERR)
\* dst[p] = src.at(q), both possibly in the same tree; the destination is
\* navigated to first, so the source is looked up in the tree after it.
Assign == \E h \in Hs, g \in Hs, p \in AllPaths, q \in AllPaths :
    LET n == Nav(item[h], p)
        v == Get(IF g = h THEN n.t ELSE item[g], q)
    IN /\ n.ok \/ v # Bad
       /\ Become(h, IF n.ok /\ v # Bad THEN Put(n.t, p, v) ELSE n.t) /\ Small
       /\ Op("assign", <<h, p, g, q>>, IF n.ok /\ v # Bad THEN OK ELSE ERR)
AppendOp == \E h \in Hs, g \in Hs, p \in AllPaths, q \in AllPaths :
    LET n == Nav(item[h], p)
        v == Get(IF g = h THEN n.t ELSE item[g], q)
        w == AppendTo(Get(n.t, p), v)
    IN /\ n.ok \/ v # Bad
       /\ IF n.ok /\ v # Bad
          THEN Become(h, Put(n.t, p, w.t)) /\ Op("append", <<h, p, g, q>>, IF w.ok THEN OK ELSE ERR)
          ELSE Become(h, n.t) /\ Op("append", <<h, p, g, q>>, ERR)
       /\ Small
CopyOp == \E h \in Hs, g \in Hs, q \in AllPaths :
    LET v == Get(item[g], q) IN
    /\ Become(h, IF v = Bad THEN item[h] ELSE v) /\ Small
    /\ Op("copy", <<h, <<>>, g, q>>, IF v = Bad THEN ERR ELSE OK)
Update == SetLeaf \/ SetEmpty \/ Touch \/ Assign \/ AppendOp \/ CopyOp

(* ------------------------------- observers ------------------------------- *)
At == \E h \in Hs, p \in AllPaths :
    /\ Op("get", <<h, p>>, IF Get(item[h], p) = Bad THEN ERR ELSE [r |-> Get(item[h], p).k])
    /\ UNCHANGED item
SizeOp == \E h \in Hs, p \in AllPaths : Get(item[h], p) # Bad
    /\ Op("size", <<h, p>>, [r |-> Size(Get(item[h], p))]) /\ UNCHANGED item
Eq == \E h \in Hs, g \in Hs, p \in AllPaths, q \in AllPaths :
    LET a == Get(item[h], p)  b == Get(item[g], q) IN
    /\ a # Bad /\ b # Bad /\ Op("eq", <<h, p, g, q>>, [r |-> a = b]) /\ UNCHANGED item
\* conversions: the driver gives the number a leaf text stands for
Conv(t, w) ==
    CASE w = "int" -> IF t.k = "leaf" THEN [r |-> t.v] ELSE ERR
      [] w = "str" -> IF t.k = "leaf" THEN [r |-> t.v] ELSE ERR
      [] w = "vec" -> IF t.k = "list" /\ \A i \in 1..Len(t.s) : t.s[i].k = "leaf"
                      THEN [r |-> [i \in 1..Len(t.s) |-> t.s[i].v]] ELSE ERR
      [] w = "map" -> IF t.k = "dict" /\ \A x \in DOMAIN t.m : t.m[x].k = "leaf"
                      THEN [r |-> [x \in DOMAIN t.m |-> t.m[x].v]] ELSE ERR
As == \E h \in Hs, p \in AllPaths, w \in {"int", "str", "vec", "map"} : Get(item[h], p) # Bad
    /\ Op("as", <<h, p, w>>, Conv(Get(item[h], p), w)) /\ UNCHANGED item
Observe == At \/ SizeOp \/ Eq \/ As

Next == Update \/ Observe
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ------------------------------ *)
\* Only the addressed handle changes, and a refused operation changes nothing
\* but keys created by navigation.
Local == [][\A h \in Hs : item'[h] # item[h] => last'.a[1] = h]_vars
Pure == [][last'.op \in {"get", "size", "eq", "as"} => item' = item]_vars
\* Everything outside the addressed path is as before.
RECURSIVE Untouched(_, _, _)
Untouched(t, u, p) ==
    IF p = <<>> THEN TRUE
    ELSE LET s == Head(p) IN
         CASE t.k = "list" /\ IsIdx(s) -> u.k = "list" /\ Len(u.s) = Len(t.s)
                 /\ \A i \in 1..Len(t.s) : IF i = s.i + 1 THEN Untouched(t.s[i], u.s[i], Tail(p)) ELSE u.s[i] = t.s[i]
           [] t.k = "dict" /\ ~IsIdx(s) -> u.k = "dict" /\ DOMAIN u.m = DOMAIN t.m \cup {s.k}
                 /\ \A x \in DOMAIN t.m : IF x = s.k THEN Untouched(t.m[x], u.m[x], Tail(p)) ELSE u.m[x] = t.m[x]
           [] t.k = "none" /\ ~IsIdx(s) -> u.k = "dict" /\ DOMAIN u.m = {s.k}
           [] OTHER -> u = t
Frame == [][last'.op \notin {"get", "size", "eq", "as"} => Untouched(item[last'.a[1]], item'[last'.a[1]], last'.a[2])]_vars
\* Reading back what was put.
ReadBack == [][(last'.op = "set" /\ last'.r = OK) => Get(item'[last'.a[1]], last'.a[2]) = last'.a[3]]_vars

Emit == PrintT(ToJson([a |-> item, o |-> last', b |-> item']))
EmitDone == TRUE
=============================================================================
