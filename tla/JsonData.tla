------------------------------ MODULE JsonData ------------------------------
(* JSON documents as TLA+ values, shared by JsonText (reader and writer) and *)
(* JsonStore (the container interface).                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

None == [k |-> "none"]
Leaf(v) == [k |-> "leaf", v |-> v]
List(s) == [k |-> "list", s |-> s]
Dict(m) == [k |-> "dict", m |-> m]          \* m: function from keys to items
NoKeys == [x \in {} |-> None]

RECURSIVE Nodes(_)
SumSeq(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE f[i-1] + s[i] IN f[Len(s)]
Nodes(t) == CASE t.k = "list" -> 1 + SumSeq([i \in 1..Len(t.s) |-> Nodes(t.s[i])])
              [] t.k = "dict" -> 1 + LET ks == DOMAIN t.m
                                         f[S \in SUBSET ks] == IF S = {} THEN 0
                                            ELSE LET x == CHOOSE y \in S : TRUE IN Nodes(t.m[x]) + f[S \ {x}]
                                     IN f[ks]
              [] OTHER -> 1
Max2(a, b) == IF a >= b THEN a ELSE b
RECURSIVE Depth(_)
Depth(t) == CASE t.k = "list" -> 1 + LET f[i \in 0..Len(t.s)] == IF i = 0 THEN 0 ELSE Max2(f[i-1], Depth(t.s[i])) IN f[Len(t.s)]
              [] t.k = "dict" -> 1 + LET f[S \in SUBSET (DOMAIN t.m)] == IF S = {} THEN 0
                                            ELSE LET x == CHOOSE y \in S : TRUE IN Max2(Depth(t.m[x]), f[S \ {x}])
                                     IN f[DOMAIN t.m]
              [] OTHER -> 0
=============================================================================
