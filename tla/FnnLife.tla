-------------------------------- MODULE FnnLife --------------------------------
(* The life of a described network (C22): adding descriptions, compiling,       *)
(* fitting, predicting, evaluating and asking for sizes, in any order.  `Kind`  *)
(* is "grow" (descriptions are added), "fixed" (given at construction) or "dyn" *)
(* (given at construction, built by compile).  A network is as good as new      *)
(* after a fit: what it predicts depends on the last fit only, and before any   *)
(* fit all its learned values are zero.                                          *)
EXTENDS FnnBuild, TLC, Json
CONSTANTS Kind, Descs,  \* sequence of descriptions
          Lists,        \* sequence of sequences of indices: the networks of "fixed" and "dyn"
          MaxLen, FitArgs, Comps, Losses
VARIABLES ds,    \* indices of the descriptions accepted or given
          comp,  \* <<>> or <<[loss, opt, init]>>
          fit,   \* <<>> or <<fit arguments, loss and optimizer>>
          last
vars == <<ds, comp, fit, last>>
View == <<ds, comp, fit>>
Late == {"dyn", "many"}     \* "many" has no sizes to ask for
Of(s) == [i \in 1..Len(s) |-> Descs[s[i]]]
Net == Chain(Of(ds))
Built == Kind \notin Late \/ comp # <<>>
Bad == Kind \in Late /\ AnyRefused(Of(ds))

Init == /\ last = [op |-> "start"] /\ fit = <<>>
        /\ IF Kind = "grow" THEN ds = <<>> ELSE \E i \in 1..Len(Lists) : ds = Lists[i]
        /\ IF Kind \in Late THEN comp = <<>> ELSE \E l \in Losses : comp = <<l>>
Say(r) == last' = r
\* using a network that is not built yet builds it with the default settings
Default == [loss |-> "mse", opt |-> "adam", init |-> "auto"]
Build == IF Built THEN UNCHANGED comp ELSE comp' = <<Default>>
Uses(op, needs) == IF ~Built /\ Bad THEN Say([op |-> op, ok |-> FALSE]) /\ UNCHANGED <<ds, comp, fit>>
                   ELSE IF needs /\ Net.layers = <<>> THEN Say([op |-> op, ok |-> FALSE]) /\ Build /\ UNCHANGED <<ds, fit>>
                   ELSE Say([op |-> op, ok |-> TRUE, layers |-> Net.layers]) /\ Build /\ UNCHANGED <<ds, fit>>

Add(d) == /\ Kind = "grow" /\ fit = <<>> /\ Len(ds) < MaxLen
          /\ Admissible(Net, Descs[d])
          /\ LET no == Refused(Net, Descs[d]) IN
             /\ Say([op |-> "add", d |-> d, ok |-> ~no])
             /\ ds' = IF no THEN ds ELSE Append(ds, d)
          /\ UNCHANGED <<comp, fit>>
Compile(c) == /\ Kind \in Late
              /\ Say([op |-> "compile", c |-> c, ok |-> ~Bad])
              /\ IF Bad THEN UNCHANGED <<ds, comp, fit>> ELSE comp' = <<c>> /\ fit' = <<>> /\ UNCHANGED ds
NoSuch == /\ Kind \in Late /\ Say([op |-> "nosuch", ok |-> FALSE]) /\ UNCHANGED <<ds, comp, fit>>
Fit(f) == LET ok == Built /\ Net.layers # <<>> IN
          /\ Say([op |-> "fit", f |-> f, ok |-> ok])
          /\ IF ~ok THEN UNCHANGED <<ds, comp, fit>>
             ELSE fit' = <<[args |-> f, opt |-> IF Kind \in Late THEN comp[1].opt ELSE f.opt]>> /\ UNCHANGED <<ds, comp>>
Predict == Uses("predict", TRUE)
Sizes == Kind \in {"grow", "dyn"} /\ Uses("sizes", FALSE)
Evaluate == IF Kind \in Late /\ ~Built THEN Say([op |-> "eval", ok |-> FALSE]) /\ UNCHANGED <<ds, comp, fit>>
            ELSE Uses("eval", TRUE)
Next == \/ \E d \in 1..Len(Descs) : Add(d)
        \/ \E c \in Comps : Compile(c)
        \/ NoSuch
        \/ \E f \in FitArgs : Fit(f)
        \/ Predict \/ Sizes \/ Evaluate
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------------- properties
Sound == WellBuilt(Net)
\* the number of layers is the number of descriptions twice over, minus the input
Counted == Len(Net.layers) = 2 * Cardinality({i \in 2..Len(ds) : Descs[ds[i]].type # "input"})
\* only compiling forgets a fit, only adding changes the chain, a refusal changes nothing
Frame == [][/\ (fit' # fit => last'.op \in {"fit", "compile"})
            /\ (ds' # ds => last'.op = "add")
            /\ (last'.op # "start" /\ ~last'.ok /\ Built => UNCHANGED <<ds, comp, fit>>)
            /\ (last'.op \in {"predict", "eval", "sizes"} /\ Built => UNCHANGED <<ds, comp, fit>>)
            /\ (last'.op \in {"fit", "eval"} /\ last'.ok => Built)]_vars
S(l, c, f) == [ds |-> l, comp |-> c, fit |-> f, chain |-> Chain(Of(l)).layers]
Emit == PrintT(ToJson([a |-> S(ds, comp, fit), o |-> last', b |-> S(ds', comp', fit')]))
===============================================================================
