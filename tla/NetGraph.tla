------------------------------- MODULE NetGraph --------------------------------
(* The graph of a network (C13): layers in the order they were added, the     *)
(* layers marked as losses, and three sets of arcs (evaluation, training and  *)
(* gradient).  Layers are numbered by the order of `Pool`; a layer of the     *)
(* pool that was not added is an outsider.                                    *)
EXTENDS RunOrder, TLC, Json
CONSTANTS Pool,      \* the names of the layers
          LossPool,  \* those of them that are loss layers
          Lists,     \* lists of layers used in calls that take several
          Kinds,     \* subset of {"edge", "fwd", "bwd"}
          MaxArcs,   \* bound on the number of arcs
          DagOnly,   \* explore acyclic graphs only
          Preset,    \* layers added from the start
          Copies
VARIABLES nodes, losses, fwd, tfw, bwd, last
vars == <<nodes, losses, fwd, tfw, bwd, last>>
View == [nodes |-> nodes, losses |-> losses, fwd |-> fwd, tfw |-> tfw, bwd |-> bwd]

In(l) == l \in Range(nodes)
Plain == {n \in Range(nodes) : n \notin Range(losses)}
IsInput(l) == l \in Plain /\ \A e \in fwd : e[2] # l
IsOutput(l) == l \in Plain /\ \A e \in fwd : e[1] # l
Inputs == {l \in Range(nodes) : IsInput(l)}
Outputs == {l \in Range(nodes) : IsOutput(l)}

Init == /\ nodes = Preset /\ losses = SelectSeq(Preset, LAMBDA x : x \in LossPool)
        /\ fwd = {} /\ tfw = {} /\ bwd = {} /\ last = [op |-> "start"]
Append1(s, x) == IF x \in Range(s) THEN s ELSE Append(s, x)
AddNode(l) == /\ nodes' = Append1(nodes, l)
              /\ last' = [op |-> "node", l |-> l, bad |-> FALSE]
              /\ UNCHANGED <<losses, fwd, tfw, bwd>>
AddLoss(l) == /\ nodes' = Append1(nodes, l) /\ losses' = Append1(losses, l)
              /\ last' = [op |-> "loss", l |-> l, bad |-> FALSE]
              /\ UNCHANGED <<fwd, tfw, bwd>>
\* a call adding arcs from every layer of fs to every layer of ts (one of the
\* two lists is a single layer); a call towards a loss layer adds no arc for
\* the evaluation
Arcs(kind, fs, ts, form) ==
    LET bad == \E l \in Range(fs) \cup Range(ts) : ~In(l)
        new == {<<f, t>> : f \in Range(fs), t \in Range(ts)}
        rev == {<<t, f>> : f \in Range(fs), t \in Range(ts)}
        toloss == form # "1n" /\ ts[1] \in LossPool /\ kind # "bwd"
    IN /\ last' = [op |-> "arcs", kind |-> kind, fs |-> fs, ts |-> ts, form |-> form, bad |-> bad]
       /\ IF bad THEN UNCHANGED <<fwd, tfw, bwd>>
          ELSE /\ fwd' = IF kind # "bwd" /\ ~toloss THEN fwd \cup new ELSE fwd
               /\ tfw' = IF kind # "bwd" THEN tfw \cup new ELSE tfw
               /\ bwd' = IF kind = "edge" THEN bwd \cup rev ELSE IF kind = "bwd" THEN bwd \cup new ELSE bwd
       /\ UNCHANGED <<nodes, losses>>
       /\ Cardinality(tfw') <= MaxArcs /\ Cardinality(bwd') <= MaxArcs
       /\ DagOnly => Acyclic(tfw') /\ Acyclic(bwd')
\* the library has no call for a list of targets with a loss among them, and
\* arcs out of a loss are gradient arcs only
Sensible(kind, fs, ts, form) ==
    /\ form = "1n" => \A l \in Range(ts) : l \notin LossPool \/ kind = "bwd"
    /\ kind # "bwd" => \A l \in Range(fs) : l \notin LossPool
Copy(how) == Copies /\ last' = [op |-> how, bad |-> FALSE] /\ UNCHANGED <<nodes, losses, fwd, tfw, bwd>>
Next ==
    \/ \E l \in Pool : AddNode(l)
    \/ \E l \in LossPool : AddLoss(l)
    \/ \E k \in Kinds :
        \/ \E f, t \in Pool : Sensible(k, <<f>>, <<t>>, "11") /\ Arcs(k, <<f>>, <<t>>, "11")
        \/ \E fs \in Lists, t \in Pool : Sensible(k, fs, <<t>>, "n1") /\ Arcs(k, fs, <<t>>, "n1")
        \/ \E f \in Pool, ts \in Lists : Sensible(k, <<f>>, ts, "1n") /\ Arcs(k, <<f>>, ts, "1n")
    \/ Copy("copy") \/ Copy("assign")
Spec == Init /\ [][Next]_vars

WellFormed ==
    /\ \A e \in fwd \cup tfw \cup bwd : In(e[1]) /\ In(e[2])
    /\ fwd \subseteq tfw
    /\ \A i, j \in 1..Len(nodes) : i # j => nodes[i] # nodes[j]
    /\ Range(losses) \subseteq Range(nodes)
\* in a graph without cycles every layer can be run, and every order in which
\* the arcs can be run one after another is one that RunOk accepts
Runnable ==
    /\ Acyclic(fwd) => Plain \subseteq Reach(fwd, Inputs) \cup Range(losses)
    /\ Acyclic(tfw) /\ Cardinality(tfw) <= 5 =>
        LET R == Reached(tfw, Inputs) IN Runs(R) # {} /\ \A r \in Runs(R) : RunOk(r, tfw, Inputs)
Laws == [][/\ last'.bad => View' = View
           /\ fwd \subseteq fwd' /\ tfw \subseteq tfw' /\ bwd \subseteq bwd'
           /\ \A i \in 1..Len(nodes) : nodes'[i] = nodes[i]]_vars
Emit == PrintT(ToJson([a |-> View, o |-> last', b |-> View']))
=================================================================================
