------------------------------- MODULE TrainRace -------------------------------
(* Which accesses of a training run can meet (C29).  Every step of TrainLoop    *)
(* reads and writes places: the learned values, the copy a task works on, the   *)
(* rows.  The main program and the tasks it has started and not collected run   *)
(* at once, so whatever one of them can do next must not touch what another     *)
(* can touch, unless both read.                                                 *)
EXTENDS TrainLoop
Learned == <<"learned", 0>>
Copy(j) == <<"copy", j>>
Row(r) == <<"row", r>>
\* what the program is about to do
MainReads == IF pc = "train" THEN {Learned, Copy(k + 1)} ELSE IF pc = "collect" /\ Done(k + 1) THEN {Copy(k + 1)} ELSE {}
MainWrites == IF pc = "train" THEN {Learned, Copy(k + 1)} ELSE {}
\* a task that is started and not yet collected
Alive(j) == j <= Len(tasks) /\ ~Done(j) /\ pc \in {"enqueue", "collect", "train"}
\* all a task may still do: copy the model, then read the learned values and its rows
TaskReads(j) == {Learned, Copy(j)} \cup {Row(tasks[j].rows[n]) : n \in 1..Len(tasks[j].rows)}
TaskWrites(j) == {Copy(j)}
Tasks == {j \in 1..Len(tasks) : Alive(j)}
NoRace ==
    /\ \A j \in Tasks : /\ MainWrites \cap (TaskReads(j) \cup TaskWrites(j)) = {}
                        /\ TaskWrites(j) \cap MainReads = {}
    /\ \A j, n \in Tasks : j # n => TaskWrites(j) \cap (TaskReads(n) \cup TaskWrites(n)) = {}
================================================================================
