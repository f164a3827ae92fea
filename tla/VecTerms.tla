------------------------------- MODULE VecTerms -------------------------------
(* Functions of real numbers on arrays, as terms (C25): f the function, g its   *)
(* derivative for the incoming gradient d.  Targets and estimates of the cross  *)
(* entropy are x and d.                                                         *)
EXTENDS LayerTerms, TLC, Json
CONSTANTS Widths, Alphas
Kinds(n) == {[kind |-> k, in |-> n, al |-> 0] : k \in {"sigmoid", "tanh", "softmax"}} \cup {[kind |-> "elu", in |-> n, al |-> a] : a \in Alphas}
XEnt(i) == Neg(Mul(X(i), <<"log", <<"max", Dx(i), <<"eps">>>>>>))
XEnt1(i) == Neg(Div(X(i), Dx(i)))
ASSUME \A n \in Widths : \A L \in Kinds(n) : PrintT(ToJson([k |-> L.kind, n |-> n, al |-> L.al, f |-> FTerms(L), g |-> GTerms(L)]))
ASSUME \A n \in Widths : PrintT(ToJson([k |-> "xent", n |-> n, al |-> 0, f |-> [i \in 1..n |-> XEnt(i)], g |-> [i \in 1..n |-> XEnt1(i)]]))
VARIABLE z
Init == z = 0
Next == UNCHANGED z
Spec == Init /\ [][Next]_z
===============================================================================
