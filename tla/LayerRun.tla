------------------------------- MODULE LayerRun -------------------------------
(* One layer of any kind and shape through a short history of training         *)
(* forward passes ("train"), evaluations ("eval") and backward passes ("back") *)
(* (C17, C18).  Inputs and incoming gradients are fixed patterns of different  *)
(* integers, numbered; a backward pass belongs to the training pass just       *)
(* before it, and may be repeated.  Kinds whose functions are not integer      *)
(* (sigmoid, tanh, softmax, elu) are described by terms, see LayerTerms.       *)
EXTENDS LayerMath, LayerTerms, TLC, Json
CONSTANTS Layers,   \* set of layers
          Script    \* sequence: the operations allowed at each step, sets of <<op, number>>
VARIABLES L, p, x, g, n, log
vars == <<L, p, x, g, n, log>>

\* --------------------------------------------------------------- patterns
Primes == {11, 23, 37, 53, 79, 127, 223, 331, 521, 1031, 2053}
Prime(k) == CHOOSE q \in Primes : q > k /\ \A r \in Primes : r > k => q <= r
Input(M, j) == LET q == Prime(InSize(M)) IN [i \in 1..InSize(M) |-> ((i * (2 * j + 1) + 3 * j) % q) - (q \div 2)]
Grad(M, j) == [i \in 1..OutSize(M) |-> ((i * (j + 2) + j) % 9) - 4]
Params(M) == [i \in 1..ParamCount(M) |-> ((i * 5 + (i \div 7) + 3) % 7) - 3]

Init == /\ L \in Layers /\ Admissible(L)
        /\ p = Params(L) /\ x = 0 /\ g = Zeros(ParamCount(L)) /\ n = 0 /\ log = <<>>
Say(op, j, in, r, gr) == log' = Append(log, [op |-> op, j |-> j, in |-> in, r |-> r, g |-> gr])
Out(train, v) == IF Termed(L) THEN FTerms(L) ELSE IF train THEN TrainForward(L, p, v) ELSE Forward(L, p, v)
Train(j) == /\ x' = j /\ UNCHANGED g /\ Say("train", j, Input(L, j), Out(TRUE, Input(L, j)), g)
Eval(j) == /\ x' = 0 /\ UNCHANGED g /\ Say("eval", j, Input(L, j), Out(FALSE, Input(L, j)), g)
Back(j) == /\ x # 0 /\ UNCHANGED x
           /\ LET d == Grad(L, j) v == Input(L, x) IN
              /\ g' = IF ParamCount(L) = 0 THEN g ELSE Add(g, ParGrad(L, p, v, d))
              /\ Say("back", j, d, IF Termed(L) THEN GTerms(L) ELSE InGrad(L, p, v, d), g')
Next == /\ n < Len(Script) /\ n' = n + 1 /\ UNCHANGED <<L, p>>
        /\ \E o \in Script[n + 1] : CASE o[1] = "train" -> Train(o[2]) [] o[1] = "eval" -> Eval(o[2]) [] o[1] = "back" -> Back(o[2])
Spec == Init /\ [][Next]_vars

\* ------------------------------------------- the specification on itself
TypeOK == Len(g) = ParamCount(L) /\ InSize(L) = Len(Input(L, 1)) /\ (n > 0 => Len(log) = n)
NoTie == x # 0 => NoTies(L, Input(L, x))
Double(v) == [i \in 1..Len(v) |-> 2 * v[i]]
Step(k, v) == [i \in 1..Len(v) |-> IF v[i] # 0 /\ (i % k = 0 \/ i % 5 = 1) THEN 1 ELSE 0]
Less(u, v) == [i \in 1..Len(u) |-> u[i] - v[i]]
Exact == x # 0 /\ ~Termed(L) /\ L.kind # "drop"
\* a step d of the input changes the output by the derivative
Slope == Exact => \A k \in {2, 3} :
    LET v == Double(Input(L, x)) d == Step(k, v) gr == Grad(L, k)
    IN Dot(gr, Less(Forward(L, p, Add(v, d)), Forward(L, p, v))) = Dot(InGrad(L, p, v, gr), d)
\* a step of the parameters likewise
ParSlope == Exact /\ ParamCount(L) > 0 => \A k \in {1, 2, 3} :
    LET v == Input(L, x) d == [i \in 1..ParamCount(L) |-> IF i % k = 0 THEN i ELSE 0] gr == Grad(L, k)
    IN Dot(gr, Less(Forward(L, Add(p, d), v), Forward(L, p, v))) = Dot(ParGrad(L, p, v, gr), d)
\* a derivative is linear in the incoming gradient
Linear == Exact => LET v == Input(L, x) IN
    InGrad(L, p, v, Add(Grad(L, 1), Grad(L, 2))) = Add(InGrad(L, p, v, Grad(L, 1)), InGrad(L, p, v, Grad(L, 2)))
\* evaluating and training give the same, but for dropout, and evaluation keeps gradients
EvalKeeps == [][log'[n + 1].op # "back" => g' = g]_vars
OutShape == IF Windowed(L) THEN <<OutH(L), OutW(L), OutC(L)>> ELSE <<OutSize(L), 1, 1>>
Emit == n = Len(Script) => PrintT(ToJson([L |-> L, p |-> p, out |-> OutShape, log |-> log]))
===============================================================================
