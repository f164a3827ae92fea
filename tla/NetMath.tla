-------------------------------- MODULE NetMath --------------------------------
(* What a network of layers computes for one sample: `Net` is the list of      *)
(* layers, losses included, `Fwd` the arcs of the evaluation and of the        *)
(* training pass, `Bwd` those of the gradients.                                *)
EXTENDS LayerMath
CONSTANTS Net, Fwd, Bwd
Ix == 1..Len(Net)
IsLoss(l) == Net[l].kind = "mse"
Plain == {l \in Ix : ~IsLoss(l)}
Losses == {l \in Ix : IsLoss(l)}
Pred(l) == {k \in Ix : <<k, l>> \in Fwd}
ThePred(l) == CHOOSE k \in Ix : <<k, l>> \in Fwd
Inputs == {l \in Plain : Pred(l) = {}}
Outputs == {l \in Plain : \A k \in Plain : <<l, k>> \notin Fwd}
FirstOutput == CHOOSE l \in Outputs : \A k \in Outputs : l <= k
OutLen(l) == IF IsLoss(l) THEN 0 ELSE OutSize(Net[l])
\* every layer has one source at most, and sizes fit
ASSUME \A l \in Ix : Cardinality(Pred(l)) <= 1
ASSUME \A l \in Plain : Admissible(Net[l])
ASSUME \A l \in Ix : Pred(l) # {} => OutSize(Net[ThePred(l)]) = IF IsLoss(l) THEN Net[l].in ELSE InSize(Net[l])

\* outputs in the evaluation (tr false) and in the training pass (tr true)
RECURSIVE Out(_, _, _, _)
In(tr, ps, x, l) == IF Pred(l) = {} THEN x ELSE Out(tr, ps, x, ThePred(l))
Out(tr, ps, x, l) == IF tr THEN TrainForward(Net[l], ps[l], In(tr, ps, x, l)) ELSE Forward(Net[l], ps[l], In(tr, ps, x, l))
\* the gradients: a loss sends two times the error scaled by the batch size, a
\* layer the derivative of its function applied to the sum of what it receives
RECURSIVE Back(_, _, _, _)
SentBy(ps, x, t, l) == IF IsLoss(l) THEN LET y == In(TRUE, ps, x, l) IN [i \in 1..Net[l].in |-> (2 \div Net[l].batch) * (y[i] - t[i])]
                       ELSE InGrad(Net[l], ps[l], In(TRUE, ps, x, l), Back(ps, x, t, l))
GradSources(l) == {k \in Ix : <<k, l>> \in Bwd}
Back(ps, x, t, l) == LET src == SetToSeq(GradSources(l))
                     IN FoldLeft(Add, Zeros(OutLen(l)), [i \in 1..Len(src) |-> SentBy(ps, x, t, src[i])])
StepGrad(ps, x, t, l) == ParGrad(Net[l], ps[l], In(TRUE, ps, x, l), Back(ps, x, t, l))
\* the sum of the squared errors of a sample at a loss
Errors(ps, x, t, l) == LET y == In(TRUE, ps, x, l) IN Sum([i \in 1..Len(t) |-> (y[i] - t[i]) * (y[i] - t[i])])
Correct(ps, x, t, l) == IF Errors(ps, x, t, l) <= Net[l].tol * Net[l].in THEN 1 ELSE 0
================================================================================
