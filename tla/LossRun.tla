-------------------------------- MODULE LossRun --------------------------------
(* A loss layer and its score (C19).  Predictions and targets are numbered;   *)
(* `bag` counts how often prediction x was evaluated against target t since   *)
(* the last reset.  The loss of a sample and its gradient are terms (see      *)
(* LayerTerms) over the prediction <<"x", i>> and the target <<"d", i>>.      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, LayerTerms, TLC, Json
CONSTANTS Kind,     \* "mse" or "cce"
          In,       \* number of predicted values
          Batch,    \* batch size
          Tol,      \* tolerance of mse, in quarters
          Preds, Targets,  \* sequences of predictions and targets, in eighths
          MaxCount  \* at most so many samples are counted
VARIABLES t, x, bag, last
vars == <<t, x, bag, last>>
T == 1..Len(Targets)
P == 1..Len(Preds)
Pairs == T \X P
Plus2(a, b) == a + b
Total(f) == FoldSet(LAMBDA a, s : s + f[a], 0, Pairs)

Nonzero(v) == {i \in 1..In : v[i] # 0}
Valid(i) == Kind = "mse" \/ Nonzero(Targets[i]) # {}
Sq(a) == a * a
SumSq(i, j) == FoldSet(LAMBDA k, s : s + Sq(Targets[i][k] - Preds[j][k]), 0, 1..In)     \* in 64ths
Correct(i, j) ==
    IF Kind = "mse" THEN SumSq(i, j) <= Tol * 16 * In
    ELSE \E k \in Nonzero(Targets[i]) : \A m \in 1..In : Preds[j][m] <= Preds[j][k]
\* the class of a target is its only nonzero element, the predicted class the greatest prediction
ASSUME Kind = "cce" => /\ \A i \in T : Cardinality(Nonzero(Targets[i])) <= 1
                       /\ \A j \in P : \A a, b \in 1..In : a # b => Preds[j][a] # Preds[j][b]
Count == Total(bag)
Right == FoldSet(LAMBDA a, s : s + (IF Correct(a[1], a[2]) THEN bag[a] ELSE 0), 0, Pairs)
EffBatch == IF Batch = 0 THEN 1 ELSE Batch
Loss == IF Kind = "mse" THEN Div(SumT([i \in 1..In |-> Mul(Sub(Dx(i), X(i)), Sub(Dx(i), X(i)))]), N(In, 1))
        ELSE SumT([i \in 1..In |-> Mul(Neg(Dx(i)), <<"log", <<"max", X(i), <<"eps">>>>>>)])
Gradient == [i \in 1..In |-> IF Kind = "mse" THEN Div(Mul(N(2, 1), Sub(X(i), Dx(i))), N(EffBatch, 1))
                             ELSE Div(Neg(Div(Dx(i), X(i))), N(EffBatch, 1))]
ASSUME PrintT(ToJson([loss |-> Loss, gradient |-> Gradient]))

View == <<t, x, bag>>
Seen == [t |-> t, x |-> x, count |-> Count, right |-> Right, pairs |-> {[t |-> a[1], x |-> a[2], n |-> bag[a]] : a \in {b \in Pairs : bag[b] > 0}}]
Init == t = 0 /\ x = 0 /\ bag = [a \in Pairs |-> 0] /\ last = [op |-> "start"]
\* a backward pass belongs to the training pass and target before it
Target(i) == t' = i /\ x' = 0 /\ UNCHANGED bag /\ last' = [op |-> "target", i |-> i]
Ok == t # 0 /\ Valid(t)
Eval(op, j) == /\ ~Ok \/ Count < MaxCount
               /\ x' = IF op = "train" THEN (IF Ok THEN j ELSE 0) ELSE x
               /\ bag' = IF Ok THEN [bag EXCEPT ![<<t, j>>] = @ + 1] ELSE bag
               /\ UNCHANGED t
               /\ last' = [op |-> op, i |-> j, ok |-> Ok]
Back == x # 0 /\ UNCHANGED <<t, x, bag>> /\ last' = [op |-> "back", i |-> x, t |-> t]
Reset == bag' = [a \in Pairs |-> 0] /\ UNCHANGED <<t, x>> /\ last' = [op |-> "reset"]
Next == (\E i \in T : Target(i)) \/ (\E j \in P : Eval("train", j) \/ Eval("eval", j)) \/ Back \/ Reset
Spec == Init /\ [][Next]_vars

CountsOnce == [][Count' = (CASE last'.op = "reset" -> 0 [] last'.op \in {"train", "eval"} -> IF last'.ok THEN Count + 1 ELSE Count [] OTHER -> Count)]_vars
RightIsSome == Right >= 0 /\ Right <= Count
RefusedIsNotCounted == [][last'.op \in {"train", "eval"} /\ ~last'.ok => bag' = bag]_vars
\* Seen at both ends of a transition
Emit == LET s == Seen IN PrintT(ToJson([a |-> s, o |-> last', b |-> Seen']))
================================================================================
