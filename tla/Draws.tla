-------------------------------- MODULE Draws ---------------------------------
(* Random helpers (C26), judged on what they answered: RECORDED is a list of   *)
(* [k |-> "sequence", from, to, v] and [k |-> "range", lo, hi, v] (scaled      *)
(* whole numbers).                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recorded == JsonDeserialize(IOEnv.RECORDED)
Elems(v) == {v[i] : i \in 1..Len(v)}
Good(r) == CASE r.k = "sequence" -> Len(r.v) = r.hi - r.lo /\ Elems(r.v) = r.lo..(r.hi - 1)
             [] r.k = "range" -> \A i \in 1..Len(r.v) : r.lo <= r.v[i] /\ r.v[i] <= r.hi
VARIABLE z
Init == z = 0
Next == UNCHANGED z
Spec == Init /\ [][Next]_z
ASSUME \A i \in 1..Len(Recorded) : PrintT(ToJson([i |-> i, ok |-> Good(Recorded[i])]))
===============================================================================
