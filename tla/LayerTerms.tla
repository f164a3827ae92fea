------------------------------ MODULE LayerTerms ------------------------------
(* Functions over the reals as terms: <<"x", i>> is the i-th input, <<"d", i>> *)
(* the i-th incoming gradient, <<"n", a, b>> the number a over b; the driver   *)
(* evaluates them with 60 digits and checks GTerms against difference          *)
(* quotients of FTerms, so that the derivatives here are not taken on trust.   *)
EXTENDS Integers, Sequences
X(i) == <<"x", i>>
Dx(i) == <<"d", i>>
N(a, b) == <<"n", a, b>>
Ex(t) == <<"exp", t>>
Mul(a, b) == <<"*", a, b>>
Div(a, b) == <<"/", a, b>>
Sub(a, b) == <<"-", a, b>>
SumT(s) == <<"+">> \o s
Pos(c, a, b) == <<"pos", c, a, b>>      \* a when c > 0, else b
Neg(a) == Sub(N(0, 1), a)

Termed(L) == L.kind \in {"sigmoid", "tanh", "softmax", "elu"}
Sigma(i) == Div(N(1, 1), SumT(<<N(1, 1), Ex(Neg(X(i)))>>))
Tanh(i) == Div(Sub(Ex(X(i)), Ex(Neg(X(i)))), SumT(<<Ex(X(i)), Ex(Neg(X(i)))>>))
Soft(L, i) == Div(Ex(X(i)), SumT([j \in 1..L.in |-> Ex(X(j))]))
Alpha(L) == N(L.al, 4)
FTerms(L) ==
    [i \in 1..L.in |->
        CASE L.kind = "sigmoid" -> Sigma(i)
          [] L.kind = "tanh" -> Tanh(i)
          [] L.kind = "softmax" -> Soft(L, i)
          [] L.kind = "elu" -> Pos(X(i), X(i), Mul(Alpha(L), Sub(Ex(X(i)), N(1, 1))))]
GTerms(L) ==
    [i \in 1..L.in |->
        CASE L.kind = "sigmoid" -> Mul(Dx(i), Mul(Sigma(i), Sub(N(1, 1), Sigma(i))))
          [] L.kind = "tanh" -> Mul(Dx(i), Sub(N(1, 1), Mul(Tanh(i), Tanh(i))))
          [] L.kind = "softmax" -> Mul(Soft(L, i), Sub(Dx(i), SumT([j \in 1..L.in |-> Mul(Dx(j), Soft(L, j))])))
          [] L.kind = "elu" -> Mul(Dx(i), Pos(X(i), N(1, 1), Mul(Alpha(L), Ex(X(i)))))]
===============================================================================
