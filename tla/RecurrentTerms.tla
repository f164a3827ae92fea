----------------------------- MODULE RecurrentTerms -----------------------------
(* Outputs, last hidden state and derivatives of a recurrent layer as terms    *)
(* over its learned values <<"x", 1..NP>>, then its inputs, then the hidden    *)
(* state the sequence starts from.                                              *)
EXTENDS LayerTerms, TLC, Json
CONSTANTS I, O, H, T
VARIABLE done
Tanh1(t) == <<"tanh", t>>
TSum(s) == IF s = <<>> THEN N(0, 1) ELSE IF Len(s) = 1 THEN s[1] ELSE SumT(s)
TSlope(h) == Sub(N(1, 1), Mul(h, h))
TZero == N(0, 1)
TOne == N(1, 1)
R == INSTANCE RecurrentMath WITH Zero <- TZero, One <- TOne, Sum <- TSum, Times <- Mul, Act <- Tanh1, Slope <- TSlope
P == [n \in 1..R!NP |-> X(n)]
XS == [n \in 1..(T * I) |-> X(R!NP + n)]
H0 == [n \in 1..H |-> X(R!NP + T * I + n)]
ASSUME PrintT(ToJson([out |-> R!Outs(P, H0, XS, T), hid |-> R!Hid(P, H0, XS, T),
                      dp |-> [n \in 1..R!NP |-> R!DOuts(P, H0, XS, T, <<"p", n>>)],
                      dx |-> [n \in 1..(T * I) |-> R!DOuts(P, H0, XS, T, <<"x", n>>)]]))
Init == done = 0
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
===============================================================================
