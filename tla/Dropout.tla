-------------------------------- MODULE Dropout --------------------------------
(* A dropout layer drops inputs at random in training: which are kept is its   *)
(* choice, what follows from the choice is not.  This is the layer as a state  *)
(* machine whose choice is read off the outputs, and it judges histories       *)
(* recorded from the code (inputs are never 0).  `rate` counts quarters.       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Recorded == JsonDeserialize(IOEnv.RECORDED)     \* records with rate, steps, and counts of drops
VARIABLES t, k, kept
vars == <<t, k, kept>>
Scale(r) == CASE r = 0 -> 1 [] r = 2 -> 2 [] r = 3 -> 4 [] r = 4 -> 1
R == Recorded[t].rate
Steps == Recorded[t].steps
S == Steps[k + 1]
Kept(v) == {i \in 1..Len(v) : v[i] # 0}
Masked(u, K) == [i \in 1..Len(u) |-> IF i \in K THEN Scale(R) * u[i] ELSE 0]
Allowed == CASE S.op = "train" -> /\ Len(S.y) = Len(S.x) /\ S.y = Masked(S.x, Kept(S.y))
                                  /\ R = 0 => Kept(S.y) = 1..Len(S.y)
                                  /\ R = 4 => Kept(S.y) = {}
             [] S.op = "eval" -> S.y = S.x
             [] S.op = "back" -> S.y = Masked(S.x, kept)
Init == t \in 1..Len(Recorded) /\ k = 0 /\ kept = {}
Next == /\ k < Len(Steps) /\ Allowed /\ k' = k + 1 /\ t' = t
        /\ kept' = IF S.op = "train" THEN Kept(S.y) ELSE kept
Spec == Init /\ [][Next]_vars
\* how often each position was dropped in n passes is within six standard
\* deviations of the rate
Near(c, m) == LET d == 4 * c - R * m IN d * d <= 36 * m * R * (4 - R)
Often == k = 0 => \A c \in 1..Len(Recorded[t].drops) : Near(Recorded[t].drops[c][1], Recorded[t].drops[c][2]) \/ PrintT(ToJson([bad |-> t, k |-> 0 - c]))
Judge == k < Len(Steps) => Allowed \/ PrintT(ToJson([bad |-> t, k |-> k + 1]))
================================================================================
