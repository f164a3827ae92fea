------------------------------- MODULE NetModel --------------------------------
(* Models made of layers (C14, C15, C16).  A model refers to a store of learned *)
(* values, which copies of a model have in common, and owns the gradients       *)
(* collected by its layers, the scores of its losses and the outputs of its     *)
(* layers.                                                                      *)
EXTENDS NetMath, TLC, Json
CONSTANTS P0,        \* for each independent model, the parameters of each layer
          Xs, Ts,    \* inputs and targets
          Ops,       \* names of the enabled operations
          MaxModels, MaxOps,
          Limit      \* learned values beyond it are trained no further
VARIABLES stores, models, n, last
vars == <<stores, models, n, last>>
View == [stores |-> stores, models |-> models, n |-> n]

NoGrads == [l \in Ix |-> IF IsLoss(l) THEN <<>> ELSE Zeros(ParamCount(Net[l]))]
NoScore == [l \in Ix |-> [cum |-> 0, cnt |-> 0, cor |-> 0]]
NoOuts == [l \in Ix |-> <<>>]
Outs(tr, ps, x) == [l \in Ix |-> IF IsLoss(l) THEN <<>> ELSE Out(tr, ps, x, l)]
Fresh(s) == [s |-> s, g |-> NoGrads, sc |-> NoScore, out |-> NoOuts]

Small(ps, b) == \A l \in Plain : \A k \in 1..Len(ps[l]) : ps[l][k] <= b /\ ps[l][k] >= 0 - b
Init == /\ stores = P0 /\ models = [i \in 1..Len(P0) |-> Fresh(i)] /\ n = 0 /\ last = [op |-> "start"]
On == Len(models)
Can(op) == op \in Ops /\ n < MaxOps
Did(r) == last' = r /\ n' = n + 1
Step(m, x, t) ==
    /\ Can("step") /\ Small(stores[models[m].s], Limit)
    /\ \A l \in Plain : NoTies(Net[l], In(TRUE, stores[models[m].s], x, l))
    /\ LET ps == stores[models[m].s] IN
       models' = [models EXCEPT ![m] =
           [s |-> @.s,
            g |-> [l \in Ix |-> IF IsLoss(l) \/ GradSources(l) = {} THEN @.g[l] ELSE Add(@.g[l], StepGrad(ps, x, t, l))],
            sc |-> [l \in Ix |-> IF IsLoss(l) THEN [cum |-> @.sc[l].cum + Errors(ps, x, t, l), cnt |-> @.sc[l].cnt + 1,
                                                    cor |-> @.sc[l].cor + Correct(ps, x, t, l)] ELSE @.sc[l]],
            out |-> Outs(TRUE, ps, x)]]
    /\ UNCHANGED stores
    /\ Did([op |-> "step", m |-> m, x |-> x, t |-> t, r |-> <<>>])
Predict(m, x) ==
    /\ Can("predict") /\ Small(stores[models[m].s], Limit)
    /\ models' = [models EXCEPT ![m].out = Outs(FALSE, stores[models[m].s], x)]
    /\ UNCHANGED stores
    /\ Did([op |-> "predict", m |-> m, x |-> x, t |-> <<>>, r |-> Out(FALSE, stores[models[m].s], x, FirstOutput)])
\* plain gradient descent with rate one, with the gradients of another model
\* that has the same learned values
TrainFrom(m, o) ==
    /\ Can(IF m = o THEN "train" ELSE "trainfrom") /\ models[m].s = models[o].s
    /\ stores' = [stores EXCEPT ![models[m].s] = [l \in Ix |-> [k \in 1..Len(@[l]) |-> @[l][k] - models[o].g[l][k]]]]
    /\ models' = [models EXCEPT ![o].g = NoGrads]
    /\ Did([op |-> "train", m |-> m, x |-> <<o>>, t |-> <<>>, r |-> <<>>])
Reset(m) == /\ Can("reset") /\ models' = [models EXCEPT ![m].sc = NoScore] /\ UNCHANGED stores
            /\ Did([op |-> "reset", m |-> m, x |-> <<>>, t |-> <<>>, r |-> <<>>])
\* the outputs a copy starts with are nobody's business
Dup(m) == [models[m] EXCEPT !.out = NoOuts]
Copy(m) == /\ Can("copy") /\ On < MaxModels /\ models' = Append(models, Dup(m)) /\ UNCHANGED stores
           /\ Did([op |-> "copy", m |-> m, x |-> <<>>, t |-> <<>>, r |-> <<>>])
Assign(m, o) == /\ Can("assign") /\ models' = [models EXCEPT ![m] = Dup(o)] /\ UNCHANGED stores
                /\ Did([op |-> "assign", m |-> m, x |-> <<o>>, t |-> <<>>, r |-> <<>>])
Swap(m, o) == /\ Can("swap") /\ m < o /\ models' = [models EXCEPT ![m] = Dup(o), ![o] = Dup(m)] /\ UNCHANGED stores
              /\ Did([op |-> "swap", m |-> m, x |-> <<o>>, t |-> <<>>, r |-> <<>>])
\* saving one model and loading the text into another one, which has neither
\* gradients nor scores
Load(m, o) == /\ Can("load") /\ \A k \in 1..On : models[k].s = models[m].s => models[k].g = NoGrads /\ models[k].sc = NoScore
              /\ stores' = [stores EXCEPT ![models[m].s] = stores[models[o].s]]
              /\ UNCHANGED models
              /\ Did([op |-> "load", m |-> m, x |-> <<o>>, t |-> <<>>, r |-> <<>>])
Next == \E m \in 1..On :
            \/ \E x \in Xs, t \in Ts : Step(m, x, t)
            \/ \E x \in Xs : Predict(m, x)
            \/ \E o \in 1..On : TrainFrom(m, o) \/ Assign(m, o) \/ Swap(m, o) \/ Load(m, o)
            \/ Reset(m) \/ Copy(m)
Spec == Init /\ [][Next]_vars
\* ----------------------------------------------------------------- properties
Learned(m) == stores[models[m].s]
\* every operation concerns the models it names: the others keep their
\* gradients, scores and outputs, and their learned values unless they have
\* them in common with a trained or loaded model
Frame == [][LET named == {last'.m} \cup {last'.x[i] : i \in IF last'.op \in {"assign", "swap", "load", "train"} THEN 1..Len(last'.x) ELSE {}}
            IN \A k \in 1..On : /\ k \notin named => models'[k] = models[k]
                                /\ (\/ last'.op \notin {"train", "load", "assign", "swap"} \/ (k \notin named /\ models[k].s # models[last'.m].s))
                                     => stores'[models'[k].s] = stores[models[k].s]]_vars
\* predicting is pure, and gives the same in every model with the same values
Pure == [][last'.op = "predict" => /\ stores' = stores
                                   /\ \A k \in 1..On : models'[k].g = models[k].g /\ models'[k].sc = models[k].sc
                                   /\ last'.r = models'[last'.m].out[FirstOutput]]_vars
\* training leaves no gradient behind, so training again changes nothing
Clean == [][last'.op = "train" => models'[last'.x[1]].g = NoGrads]_vars
\* without a kink in the way the error is a polynomial of degree two in each
\* learned value, so its slope is its central difference
Smooth == \A l \in Plain : Net[l].kind \in {"dense", "conv", "linear"}
Slope == Smooth => \A s \in 1..Len(stores), x \in Xs, t \in Ts : \A l \in Plain : GradSources(l) # {} /\ Small(stores[s], 20) =>
    LET exact == StepGrad(stores[s], x, t, l)
        moved(k, d) == Sum([j \in Ix |-> IF IsLoss(j) /\ \E b \in Bwd : b[1] = j
                                         THEN Errors([stores[s] EXCEPT ![l][k] = @ + d], x, t, j) \div Net[j].batch ELSE 0])
    IN \A k \in 1..Len(exact) : (\A j \in Losses : Net[j].batch = 1) => 2 * exact[k] = moved(k, 1) - moved(k, -1)
Emit == PrintT(ToJson([a |-> View, o |-> last', b |-> View']))
===============================================================================
