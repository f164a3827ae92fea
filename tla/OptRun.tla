-------------------------------- MODULE OptRun --------------------------------
(* Optimizers at work on layers (C20).  Layers may share their learnable       *)
(* values (clones): `Store[l]` says which values layer l has, `Count[s]` how    *)
(* many.  g[l] is the accumulated gradient of layer l; cur[o][s] the gradients *)
(* optimizer o has applied to store s since its last reset; upd[s] the updates *)
(* made to store s, each given by the gradients it depends on, newest last.    *)
(* Delta(n) is the step of one learnable value as a term over the last n       *)
(* gradients <<"d", 1>> .. <<"d", n>> of that value.                           *)
EXTENDS Integers, Sequences, FiniteSets, LayerTerms, TLC, Json
CONSTANTS Rule,     \* "gd" or "adam"
          Hyper,    \* sequence over optimizers: [eta, b1, b2, eps], each <<a, b>> for a over b
          Store, Count,
          Grads,    \* sequence of integers from which the gradients are taken
          Ops, MaxOps
VARIABLES g, cur, upd, n, last
vars == <<g, cur, upd, n, last>>
LS == 1..Len(Store)
SS == 1..Len(Count)
OS == 1..Len(Hyper)
C(l) == Count[Store[l]]

\* ---------------------------------------------------------------- the rules
RECURSIVE Pow(_, _)
Pow(t, k) == IF k = 0 THEN N(1, 1) ELSE Mul(t, Pow(t, k - 1))
Q(r) == N(r[1], r[2])
One == N(1, 1)
Mean(b, k, sq) == Div(SumT([i \in 1..k |-> Mul(Mul(Sub(One, b), Pow(b, k - i)), IF sq THEN Mul(Dx(i), Dx(i)) ELSE Dx(i))]), Sub(One, Pow(b, k)))
Delta(o, k) == IF Rule = "gd" THEN Mul(Q(Hyper[o].eta), Dx(k))
               ELSE Mul(Q(Hyper[o].eta), Div(Mean(Q(Hyper[o].b1), k, FALSE), SumT(<<<<"sqrt", Mean(Q(Hyper[o].b2), k, TRUE)>>, Q(Hyper[o].eps)>>)))
ASSUME PrintT(ToJson([delta |-> [o \in OS |-> [k \in 1..MaxOps |-> Delta(o, k)]]]))

\* ------------------------------------------------------------------ machine
G(l, k) == [i \in 1..C(l) |-> Grads[((i + 3 * k - 1) % Len(Grads)) + 1]]
Zero(l) == [i \in 1..C(l) |-> 0]
View == <<g, cur, upd, n>>
Init == /\ g = [l \in LS |-> Zero(l)] /\ cur = [o \in OS |-> [s \in SS |-> <<>>]] /\ upd = [s \in SS |-> <<>>]
        /\ n = 0 /\ last = [op |-> "start"]
Say(r) == n < MaxOps /\ n' = n + 1 /\ last' = r
Acc(l, k) == /\ C(l) > 0 /\ Say([op |-> "acc", l |-> l, v |-> G(l, k)])
             /\ g' = [g EXCEPT ![l] = [i \in 1..C(l) |-> @[i] + G(l, k)[i]]] /\ UNCHANGED <<cur, upd>>
Train(op, o, a, b) ==
    LET ok == C(a) = C(b)
        run == Append(cur[o][Store[b]], g[a])
    IN /\ op \in Ops /\ (op # "check" => ok) /\ (op = "self" => a = b) /\ Say([op |-> op, o |-> o, from |-> a, to |-> b, ok |-> ok])
       /\ IF ok /\ C(a) > 0 THEN /\ g' = [g EXCEPT ![a] = Zero(a)]
                    /\ cur' = [cur EXCEPT ![o][Store[b]] = run]
                    /\ upd' = [upd EXCEPT ![Store[b]] = Append(@, [o |-> o, run |-> run])]
          ELSE UNCHANGED <<g, cur, upd>>
Reset(o) == /\ "reset" \in Ops /\ Say([op |-> "reset", o |-> o])
            /\ cur' = [cur EXCEPT ![o] = [s \in SS |-> <<>>]] /\ UNCHANGED <<g, upd>>
Next == \/ \E l \in LS, k \in 1..2 : Acc(l, k)
        \/ \E o \in OS : Reset(o) \/ \E a, b \in LS, op \in {"train", "self", "check"} : Train(op, o, a, b)
Spec == Init /\ [][Next]_vars

Cleared == [][last'.op \in {"train", "self", "check"} /\ last'.ok => \A i \in 1..C(last'.from) : g'[last'.from][i] = 0]_vars
OthersKept == [][\A l \in LS : (last'.op \in {"train", "self", "check"} /\ l # last'.from) => g'[l] = g[l]]_vars
OneStore == [][\A s \in SS : upd'[s] # upd[s] => /\ last'.op \in {"train", "self", "check"} /\ Store[last'.to] = s
                                                 /\ Len(upd'[s]) = Len(upd[s]) + 1]_vars
RefusedIsNoChange == [][last'.op = "check" /\ ~last'.ok => UNCHANGED <<g, cur, upd>>]_vars
St == [g |-> g, upd |-> upd, cur |-> cur, n |-> n]
Emit == LET s == St IN PrintT(ToJson([a |-> s, o |-> last', b |-> St']))
===============================================================================
