------------------------------ MODULE WindowTable ------------------------------
(* The windowed functions on their own (C25): correlation with one or several  *)
(* kernels, the greatest and the mean of a window.                             *)
EXTENDS LayerMath, TLC, Json
CONSTANTS Layers
X(L) == [i \in 1..InSize(L) |-> ((i * 7 + 3) % 23) - 11]
K(L) == [i \in 1..WeightCount(L) |-> ((i * 5 + (i \div 7) + 3) % 7) - 3]
Table == {L \in Layers : Admissible(L)}
\* a kernel of a single one reads the input where it stands
OneCell == \A L \in Table : L.kind = "conv" /\ L.kh = 1 /\ L.kw = 1 /\ L.c = 1 /\ L.f = 1 /\ L.ph = 0 /\ L.pw = 0 /\ L.sh = 1 /\ L.sw = 1
                            => Forward(L, <<1, 0>>, X(L)) = X(L)
\* filters are independent of each other
Filters == \A L \in Table : L.kind = "conv" => \A f \in 1..L.f :
    LET one == [L EXCEPT !.f = 1]
        k == [i \in 1..WeightCount(one) |-> K(L)[(i - 1) * L.f + f]]
    IN Forward(one, k \o <<0>>, X(L)) = [q \in 1..OutSize(one) |-> Forward(L, K(L) \o Zeros(L.f), X(L))[(q - 1) * L.f + f]]
ASSUME OneCell
ASSUME Filters
ASSUME \A L \in Table : PrintT(ToJson([L |-> L, x |-> X(L), k |-> K(L), y |-> Forward(L, K(L) \o Zeros(BiasCount(L)), X(L))]))
VARIABLE z
Init == z = 0
Next == UNCHANGED z
Spec == Init /\ [][Next]_z
===============================================================================
