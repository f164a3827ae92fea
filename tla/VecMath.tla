------------------------------- MODULE VecMath --------------------------------
(* Arithmetic on arrays (C25): R registers of N integers; every operation      *)
(* reads one or two registers and writes one, which may be one it reads unless *)
(* the operation says otherwise.  Those that may not work in place are refused *)
(* and change nothing.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS R, N, Low, High, Scalars, Matrices, Ops
VARIABLES reg, last
vars == <<reg, last>>
View == reg
Rs == 1..R
Vals == [1..N -> Low..High]
Init == reg \in [Rs -> Vals] /\ last = [op |-> "new"]
Bound == \A h \in Rs : reg[h] \in Vals

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Pos(x) == IF x > 0 THEN x ELSE 0
Step(x) == IF x > 0 THEN 1 ELSE 0
\* derivatives in terms of the function's value y
Of(op, y, k) ==
    CASE op = "relu" -> Pos(y)
      [] op = "relu1" -> Step(y)
      [] op = "tanhopt" -> 1 - y * y
      [] op = "sigopt" -> y * (1 - y)
      [] op = "eluopt" -> IF y > 0 THEN 1 ELSE y + k
      [] op = "mulc" -> y * k
      [] op = "sumc" -> y + k
Two(op, x, y, k) ==
    CASE op = "mulv" -> x * y
      [] op = "sumv" -> x + y
      [] op = "mse1" -> 2 * k * (y - x)     \* x the target, y the estimate
Say(op, d, a, b, k, r) == last' = [op |-> op, d |-> d, a |-> a, b |-> b, k |-> k, r |-> r]
Write(d, v) == reg' = [reg EXCEPT ![d] = v]
Ones == {"relu", "relu1", "tanhopt", "sigopt"}
OneK == {"eluopt", "mulc", "sumc"}
One(op, d, a, k) == Write(d, [i \in 1..N |-> Of(op, reg[a][i], k)]) /\ Say(op, d, a, 0, k, "ok")
Pair(op, d, a, b, k) == Write(d, [i \in 1..N |-> Two(op, reg[a][i], reg[b][i], k)]) /\ Say(op, d, a, b, k, "ok")
\* m[i][j]: row i, column j; the rows not written keep their values
MatMul(d, a, m) ==
    IF d = a THEN UNCHANGED reg /\ Say("matmul", d, a, 0, m, "refused")
    ELSE /\ Write(d, [i \in 1..N |-> IF i > Len(m) THEN reg[d][i]
                                     ELSE Sum([j \in 1..Len(m[i]) |-> m[i][j] * reg[a][j]])])
         /\ Say("matmul", d, a, 0, m, "ok")
\* y the value of the softmax function, g the incoming gradient
Softmax1(y, g, i) == y[i] * (g[i] - Sum([j \in 1..N |-> y[j] * g[j]]))
SoftOpt(d, a, b) ==
    IF d = a THEN UNCHANGED reg /\ Say("softopt", d, a, b, 0, "refused")
    ELSE d # b /\ Write(d, [i \in 1..N |-> Softmax1(reg[a], reg[b], i)]) /\ Say("softopt", d, a, b, 0, "ok")
\* readers: r is the value, or the set of positions that may be answered
Greatest(v) == CHOOSE x \in {v[i] : i \in 1..N} : \A i \in 1..N : v[i] <= x
Where(v, x) == {i \in 1..N : v[i] = x}
Read ==
    UNCHANGED reg /\
    \/ N > 0 /\ \E a \in Rs, op \in {"max", "argmax", "maxarg"} :
          Say(op, 0, a, 0, 0, [v |-> Greatest(reg[a]), at |-> Where(reg[a], Greatest(reg[a]))])
    \/ N > 0 /\ \E a \in Rs, b \in Rs : Say("mse", 0, a, b, 0, [v |-> Sum([i \in 1..N |-> (reg[a][i] - reg[b][i]) * (reg[a][i] - reg[b][i])]), at |-> {}])
    \/ \E a \in Rs, k \in Scalars : Say("index", 0, a, 0, k, [v |-> k, at |-> Where(reg[a], k)])
Next == \/ \E op \in Ones \cap Ops, d \in Rs, a \in Rs : One(op, d, a, 0)
        \/ \E op \in OneK \cap Ops, d \in Rs, a \in Rs, k \in Scalars : One(op, d, a, k)
        \/ \E op \in {"mulv", "sumv"} \cap Ops, d \in Rs, a \in Rs, b \in Rs : Pair(op, d, a, b, 0)
        \/ "mse1" \in Ops /\ \E d \in Rs, a \in Rs, b \in Rs, k \in Scalars : Pair("mse1", d, a, b, k)
        \/ "matmul" \in Ops /\ \E d \in Rs, a \in Rs, m \in Matrices : MatMul(d, a, m)
        \/ "softopt" \in Ops /\ \E d \in Rs, a \in Rs, b \in Rs : SoftOpt(d, a, b)
        \/ "read" \in Ops /\ Read
Spec == Init /\ [][Next]_vars

Frame == [][\A h \in Rs : h # last'.d => reg'[h] = reg[h]]_vars
Refused == [][last'.d > 0 /\ last'.r = "refused" => reg' = reg]_vars
\* the slope of the mean squared error along every direction, exactly
Sq(x, y) == Sum([i \in 1..N |-> (x[i] - y[i]) * (x[i] - y[i])])
MseSlope == \A a \in Rs, b \in Rs, i \in 1..N :
    LET y == reg[b] up == [y EXCEPT ![i] = @ + 1] dn == [y EXCEPT ![i] = @ - 1]
    IN Sq(reg[a], up) - Sq(reg[a], dn) = 2 * Two("mse1", reg[a][i], y[i], 1)
\* the softmax derivative loses the common part of the gradient: a shift of
\* every incoming gradient by the same amount changes it by y * (1 - sum y) * amount
SoftShift == \A a \in Rs, b \in Rs, i \in 1..N :
    Softmax1(reg[a], [j \in 1..N |-> reg[b][j] + 1], i) = Softmax1(reg[a], reg[b], i) + reg[a][i] * (1 - Sum(reg[a]))
Emit == PrintT(ToJson([a |-> reg, o |-> last', b |-> reg']))
===============================================================================
