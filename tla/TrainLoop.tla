------------------------------- MODULE TrainLoop -------------------------------
(* Training a network on the rows of a data set (C21): one after another        *)
(* ("seq"), with one task per row ("entry") or one task per batch ("batch"),    *)
(* run by a pool of workers in any order and, unless Atomic, interleaved row by *)
(* row.  Tasks work on copies that share the learned values p, so they read     *)
(* whatever p is when they get to a row.  Plain gradient descent, rate one.     *)
EXTENDS NetMath, TLC, Json
CONSTANTS Mode, Rows,  \* [x, t]
          Batch, Epochs, Workers, P0, Atomic
VARIABLES p, e, i,     \* learned values, epoch, rows of it given to tasks so far
          tasks,       \* of this round: [rows, at, g]: rows, how many done, gradients
          pc,          \* "enqueue", "collect", "train", "end"
          k,           \* tasks enqueued, collected or trained so far in this phase
          log
vars == <<p, e, i, tasks, pc, k, log>>
N == Len(Rows)
Least(a, b) == IF a < b THEN a ELSE b
Span(a, b) == [j \in 1..(IF b > a THEN b - a ELSE 0) |-> a + j]
NoG == [l \in Ix |-> IF IsLoss(l) THEN <<>> ELSE Zeros(ParamCount(Net[l]))]
RowGrad(ps, r) == [l \in Ix |-> IF IsLoss(l) THEN <<>> ELSE StepGrad(ps, Rows[r].x, Rows[r].t, l)]
AddG(a, b) == [l \in Ix |-> Add(a[l], b[l])]
Move(ps, gr) == [l \in Ix |-> [j \in 1..Len(ps[l]) |-> ps[l][j] - gr[l][j]]]

\* the rows of the tasks of a round that starts after the first a rows
Round(a) == CASE Mode = "seq" -> <<Span(a, Least(N, a + Batch))>>
              [] Mode = "entry" -> [j \in 1..Least(Batch, N - a) |-> <<a + j>>]
              [] Mode = "batch" -> [w \in 1..Workers |-> Span(Least(N, a + (w - 1) * Batch), Least(N, a + w * Batch))]
After(a) == CASE Mode = "batch" -> Least(N, a + Workers * Batch) [] OTHER -> Least(N, a + Batch)

\* ------------------------------------------ what training is, schedule or not
RECURSIVE EpochOf(_, _), Trained(_, _)
RoundGrad(ps, a) == FoldLeft(AddG, NoG, [j \in 1..(After(a) - a) |-> RowGrad(ps, a + j)])
EpochOf(ps, a) == IF a >= N THEN ps ELSE EpochOf(Move(ps, RoundGrad(ps, a)), After(a))
Trained(ps, n) == IF n = 0 THEN ps ELSE Trained(EpochOf(ps, 0), n - 1)
Result == Trained(P0, Epochs)

\* ------------------------------------------------------------------ machine
Init == /\ p = P0 /\ e = 0 /\ i = 0 /\ tasks = <<>> /\ k = 0 /\ log = <<>>
        /\ pc = IF Epochs = 0 \/ N = 0 THEN "end" ELSE "enqueue"
Log(what, j) == log' = Append(log, <<what, j>>)
Fresh(rows) == [rows |-> rows, at |-> 0, g |-> NoG]
Enqueue == /\ pc = "enqueue"
           /\ LET r == Round(i) IN
              /\ tasks' = Append(tasks, Fresh(r[k + 1]))
              /\ Log("e", k) /\ UNCHANGED <<p, e>>
              /\ IF k + 1 = Len(r) THEN pc' = "collect" /\ k' = 0 /\ i' = After(i) ELSE UNCHANGED <<pc, i>> /\ k' = k + 1
Done(j) == tasks[j].at = Len(tasks[j].rows) + 1     \* the copy counts as a step
RECURSIVE RunAll(_)
RunAll(t) == IF t.at = Len(t.rows) + 1 THEN t ELSE
             LET u == [t EXCEPT !.at = @ + 1] IN
             RunAll(IF u.at = 1 THEN u ELSE [u EXCEPT !.g = AddG(@, RowGrad(p, u.rows[u.at - 1]))])
StepOf(t) == LET u == [t EXCEPT !.at = @ + 1] IN IF u.at = 1 THEN u ELSE [u EXCEPT !.g = AddG(@, RowGrad(p, u.rows[u.at - 1]))]
Work(j) == /\ pc \in {"enqueue", "collect"} /\ j <= Len(tasks) /\ ~Done(j)
           /\ tasks' = [tasks EXCEPT ![j] = IF Atomic THEN RunAll(@) ELSE StepOf(@)]
           /\ (IF Atomic \/ tasks[j].at = 0 THEN Log("r", j - 1) ELSE UNCHANGED log)
           /\ UNCHANGED <<p, e, i, pc, k>>
Collect == /\ pc = "collect" /\ Done(k + 1) /\ Log("g", k) /\ UNCHANGED <<p, e, i, tasks>>
           /\ IF k + 1 = Len(tasks) THEN pc' = "train" /\ k' = 0 ELSE pc' = pc /\ k' = k + 1
Train == /\ pc = "train" /\ p' = Move(p, tasks[k + 1].g) /\ UNCHANGED log
         /\ IF k + 1 < Len(tasks) THEN k' = k + 1 /\ UNCHANGED <<e, i, tasks, pc>>
            ELSE /\ tasks' = <<>> /\ k' = 0
                 /\ IF i < N THEN pc' = "enqueue" /\ UNCHANGED <<e, i>>
                    ELSE IF e + 1 < Epochs THEN pc' = "enqueue" /\ e' = e + 1 /\ i' = 0
                    ELSE pc' = "end" /\ e' = e + 1 /\ i' = i
Next == Enqueue \/ Collect \/ Train \/ \E j \in 1..Workers + Batch : Work(j)
Spec == Init /\ [][Next]_vars

\* every schedule ends with the learned values of training
Confluent == pc = "end" => p = Result
\* tasks never see the learned values move under them
Quiet == [][p' # p => \A j \in 1..Len(tasks) : Done(j)]_vars
\* the tasks of a round have the next rows, each once
Once == pc = "collect" => LET all == FoldLeft(LAMBDA a, t : a \o t.rows, <<>>, tasks)
                          IN \A j \in 1..Len(all) : all[j] = all[1] + j - 1 /\ all[Len(all)] = i
EmitEnd == pc = "end" => PrintT(ToJson([p |-> p, log |-> log]))
\* the log is not part of the state when only properties are checked
NoLog == <<p, e, i, tasks, pc, k>>
================================================================================
