------------------------------- MODULE InitRun --------------------------------
(* Initialising the learned values of models (C26).  Where a value comes from  *)
(* is the state: given by the caller, a small constant (the biases), or drawn: *)
(* the i-th draw of a source that is determined by the seed and the            *)
(* distribution, scaled by the spread that the layer's rule and the number of  *)
(* inputs decide.  With the automatic rule a layer that feeds a rectifier      *)
(* directly gets the wider spread.  Copies have their learned values in common *)
(* (C15), so the origin belongs to a store.  Everything else (gradients,       *)
(* scores) keeps what it was: `rest` numbers its versions.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Net,      \* sequence of layers, as in LayerMath; also kind "rnn": in, out, hid
          Fwd,      \* forward arcs <<from, to>>
          Choices, Dists, Seeds, MaxOps, MaxModels, Ops,
          Stores      \* independent models to start with
VARIABLES st, m, n, last  \* st: for each store and layer the origin; m: models, [s |-> store, rest |-> version]
vars == <<st, m, n, last>>
View == [st |-> st, m |-> m, n |-> n]
Ls == 1..Len(Net)
\* the groups of learned values of a layer, in the order of their numbers:
\* how many, and how many inputs feed one of them (0: bias)
Groups(L) ==
    CASE L.kind = "dense" -> <<<<L.in * L.out, L.in>>, <<L.out, 0>>>>
      [] L.kind = "conv" -> <<<<L.kh * L.kw * L.c * L.f, L.h * L.w * L.c>>, <<L.f, 0>>>>
      [] L.kind = "rnn" -> <<<<L.hid * L.in, L.in>>, <<L.hid * L.hid, L.hid>>, <<L.hid, 0>>, <<L.out * L.hid, L.hid>>, <<L.out, 0>>>>
      [] OTHER -> <<>>
FeedsRelu(i) == \E a \in Fwd : a[1] = i /\ Net[a[2]].kind = "relu"
Rule(i, c) == IF c # "auto" THEN c ELSE IF FeedsRelu(i) THEN "kaiming" ELSE "xavier"
\* the spread: the square root of num over the number of inputs
Num(rule) == IF rule = "kaiming" THEN 2 ELSE 1
Given(j) == [k |-> "given", j |-> j]
Drawn(i, c, d, s) == [k |-> "drawn", num |-> Num(Rule(i, c)), d |-> d, s |-> s]

Init == /\ st = [k \in 1..Stores |-> [i \in Ls |-> Given(k)]]
        /\ m = [k \in 1..Stores |-> [s |-> k, rest |-> 0]] /\ n = 0 /\ last = [op |-> "new"]
Next ==
    /\ n < MaxOps /\ n' = n + 1
    /\ \/ \E k \in DOMAIN m, c \in Choices, d \in Dists, s \in Seeds :
             /\ st' = [st EXCEPT ![m[k].s] = [i \in Ls |-> IF Groups(Net[i]) = <<>> THEN @[i] ELSE Drawn(i, c, d, s)]]
             /\ last' = [op |-> "init", m |-> k, c |-> c, d |-> d, s |-> s]
             /\ UNCHANGED m
       \/ "set" \in Ops /\ \E k \in DOMAIN m, i \in Ls, j \in {Stores + 1} :
             /\ Groups(Net[i]) # <<>>
             /\ st' = [st EXCEPT ![m[k].s][i] = Given(j)]
             /\ last' = [op |-> "set", m |-> k, i |-> i, j |-> j]
             /\ UNCHANGED m
       \/ "step" \in Ops /\ \E k \in DOMAIN m :
             /\ m' = [m EXCEPT ![k].rest = n + 1]
             /\ last' = [op |-> "step", m |-> k]
             /\ UNCHANGED st
       \/ "copy" \in Ops /\ Len(m) < MaxModels /\ \E k \in DOMAIN m :
             /\ m' = Append(m, m[k])
             /\ last' = [op |-> "copy", m |-> k]
             /\ UNCHANGED st
       \/ "assign" \in Ops /\ \E k, f \in DOMAIN m :
             /\ m' = [m EXCEPT ![k] = m[f]]
             /\ last' = [op |-> "assign", m |-> k, f |-> f]
             /\ UNCHANGED st
Spec == Init /\ [][Next]_vars

\* the same call gives the same values whatever happened before, and the values
\* of a store in which everything was drawn have one seed and one distribution,
\* unless some were given since
Src(k) == st[m[k].s]
Whole == \A k \in DOMAIN st : \A i, j \in Ls : Groups(Net[i]) # <<>> /\ Groups(Net[j]) # <<>> /\ st[k][i].k = "drawn" /\ st[k][j].k = "drawn"
             => st[k][i].s = st[k][j].s /\ st[k][i].d = st[k][j].d
\* a model that was not named keeps what it has, unless it has it in common
Frame == [][\A k \in DOMAIN m : k # last'.m =>
             /\ m'[k] = m[k]
             /\ m[k].s # m[last'.m].s => st'[m'[k].s] = Src(k)]_vars
OnlyValues == [][last'.op \in {"init", "set"} => \A k \in DOMAIN m : m'[k].rest = m[k].rest]_vars
Together == [][\A k, f \in DOMAIN m : m[k].s = m[f].s /\ last'.op # "assign" => m'[k].s = m'[f].s]_vars
Emit == PrintT(ToJson([a |-> View, o |-> last', b |-> View', g |-> [i \in Ls |-> Groups(Net[i])]]))
===============================================================================
