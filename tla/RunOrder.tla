------------------------------- MODULE RunOrder --------------------------------
(* What it means to run a graph (C13): a run is a list of arcs; every arc     *)
(* that the starting layers reach is run exactly once, and an arc out of a    *)
(* layer only after all such arcs into it.                                    *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in 1..Len(s)}
Succ(E, S) == {e[2] : e \in {x \in E : x[1] \in S}}
RECURSIVE Reach(_, _)
Reach(E, S) == LET n == S \cup Succ(E, S) IN IF n = S THEN S ELSE Reach(E, n)
Reached(E, S) == LET r == Reach(E, S) IN {e \in E : e[1] \in r}
Acyclic(E) == \A e \in E : e[1] \notin Reach(E, {e[2]})
Complete(run, E, S) == Len(run) = Cardinality(Reached(E, S)) /\ Range(run) = Reached(E, S)
Ordered(run) == \A i, j \in 1..Len(run) : i < j => run[j][2] # run[i][1]
\* a graph with a cycle has no such order: there only completeness is asked for
RunOk(run, E, S) == Complete(run, E, S) /\ (Acyclic(Reached(E, S)) => Ordered(run))
\* running arc by arc is possible exactly in this way: the next arc leaves a
\* layer into which nothing is left to run
RECURSIVE Runs(_)
Runs(E) == IF E = {} THEN {<<>>}
           ELSE UNION {{<<e>> \o r : r \in Runs(E \ {e})} : e \in {x \in E : \A y \in E : y[2] # x[1]}}
=================================================================================
