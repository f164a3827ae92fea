------------------------------ MODULE LayerStore ------------------------------
(* Saving and loading (C16).  Slots hold layers (or whole models); `kind` is   *)
(* what a slot can hold (the class of the layer, the architecture of the       *)
(* model), `c[i]` names the original whose name, shapes, settings and learned  *)
(* values slot i has now.  Loading the text of another kind, or a text that is *)
(* no saved layer, is refused and leaves the slot as it was.                   *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kind,   \* sequence of the kinds of the slots
          Bad,    \* texts that are no saved layer
          Cross,  \* loads between kinds are tried too
          MaxOps
VARIABLES c, n, last
vars == <<c, n, last>>
View == <<c, n>>
I == 1..Len(Kind)
Init == c = [i \in I |-> i] /\ n = 0 /\ last = [op |-> "start"]
Load(i, j) == /\ n < MaxOps /\ (Cross \/ Kind[i] = Kind[j]) /\ n' = n + 1
              /\ LET ok == Kind[i] = Kind[j] IN
                 /\ c' = IF ok THEN [c EXCEPT ![j] = c[i]] ELSE c
                 /\ last' = [op |-> "load", from |-> i, to |-> j, ok |-> ok]
Broken(k, j) == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED c
                /\ last' = [op |-> "bad", from |-> k, to |-> j, ok |-> FALSE]
Next == \E j \in I : (\E i \in I : Load(i, j)) \/ (\E k \in 1..Bad : Broken(k, j))
Spec == Init /\ [][Next]_vars
KindsKept == \A i \in I : Kind[c[i]] = Kind[i]
OnlyTarget == [][\A i \in I : i # last'.to => c'[i] = c[i]]_vars
RefusedIsNoChange == [][~last'.ok => c' = c]_vars
Emit == PrintT(ToJson([a |-> View, o |-> last', b |-> View']))
===============================================================================
