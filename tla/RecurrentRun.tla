------------------------------ MODULE RecurrentRun ------------------------------
(* Histories of a recurrent layer and a copy of it (C23).  What reaches the    *)
(* activation is always a multiple of 32, where the hyperbolic tangent of the  *)
(* code is -1, 0 or 1 and its slope 0, 1 or 0: every result is exact and the   *)
(* hidden states are finite in number, so that histories of any length are     *)
(* explored.  h is the state carried, run the sequence a backward pass is      *)
(* about, g the gradients summed up since the beginning.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS I, O, H, P,
          Inputs,       \* values of an input
          Steps,        \* numbers of time steps
          States,       \* states that are set, of any length
          Grads,        \* sequence of integers: incoming gradients are cut out of it
          Handles, Ops, MaxOps, Start
VARIABLES h, T, run, g, alive, n, last
vars == <<h, T, run, g, alive, n, last>>
View == <<h, T, run, g, alive, n>>
ISum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
ITimes(a, b) == a * b
Sign(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Sat(a) == IF a % 32 = 0 THEN Sign(a) ELSE Assert(FALSE, <<"not saturated", a>>)
ISlope(a) == 1 - a * a
R == INSTANCE RecurrentMath WITH Zero <- 0, One <- 1, Sum <- ISum, Times <- ITimes, Act <- Sat, Slope <- ISlope
ASSUME Len(P) = R!NP

Seqs(t) == [1..(t * I) -> Inputs]
HS == [1..H -> {-1, 0, 1}]
Min2(a, b) == IF a < b THEN a ELSE b

\* ------------------------------------------------- what the functions promise
Least2(S) == CHOOSE a \in S : \A b \in S : a <= b
Most == CHOOSE a \in Steps : \A b \in Steps : b <= a
Some == IF Cardinality(Seqs(Most)) > 100 THEN {s \in Seqs(Most) : s[1] = 1} ELSE Seqs(Most)
\* an output never depends on later inputs
Causal == \A h0 \in HS : \A a, b \in Some : \A t \in 1..Most :
            (\A m \in 1..(t * I) : a[m] = b[m]) => R!Out(P, h0, a, t) = R!Out(P, h0, b, t)
\* a sequence in two calls is the sequence in one call
Carried == \A h0 \in HS : \A a \in Some : \A t \in 0..Most :
             LET mid == R!Hid(P, h0, a, t)
                 rest == SubSeq(a, t * I + 1, Most * I)
             IN R!Outs(P, h0, a, t) \o R!Outs(P, mid, rest, Most - t) = R!Outs(P, h0, a, Most)
ASSUME Causal /\ Carried

\* -------------------------------------------------------------------- machine
Zeros == [m \in 1..R!NP |-> 0]
Gv(t, k) == [m \in 1..(t * O) |-> Grads[((m + 3 * k - 1) % Len(Grads)) + 1]]
Dot(a, b) == ISum([m \in 1..Len(a) |-> a[m] * b[m]])
Params(r, gr) == [m \in 1..R!NP |-> Dot(gr, R!DOuts(P, r.h0, r.xs, r.t, <<"p", m>>))]
Inward(r, gr) == [m \in 1..(r.t * I) |-> Dot(gr, R!DOuts(P, r.h0, r.xs, r.t, <<"x", m>>))]

Init == /\ h = [c \in Handles |-> [m \in 1..H |-> 0]] /\ T = [c \in Handles |-> Start] /\ run = [c \in Handles |-> <<>>]
        /\ g = [c \in Handles |-> Zeros] /\ alive = {1} /\ n = 0 /\ last = [op |-> "start"]
Say(r) == /\ r.op \in Ops /\ r.c \in alive /\ last' = r /\ (MaxOps > 0 => n < MaxOps) /\ n' = IF MaxOps > 0 THEN n + 1 ELSE 0
Keep(r) == IF "back" \in Ops THEN r ELSE <<>>
Set(c, v) == LET ok == Len(v) <= H IN
             /\ Say([op |-> "set", c |-> c, v |-> v, ok |-> ok])
             /\ h' = IF ok THEN [h EXCEPT ![c] = v \o SubSeq(@, Len(v) + 1, H)] ELSE h
             /\ run' = IF ok THEN [run EXCEPT ![c] = <<>>] ELSE run
             /\ UNCHANGED <<T, g, alive>>
Reset(c) == /\ Say([op |-> "reset", c |-> c, ok |-> TRUE])
            /\ h' = [h EXCEPT ![c] = [m \in 1..H |-> 0]] /\ run' = [run EXCEPT ![c] = <<>>] /\ UNCHANGED <<T, g, alive>>
Resize(c, t) == /\ Say([op |-> "steps", c |-> c, t |-> t, ok |-> TRUE])
                /\ T' = [T EXCEPT ![c] = t] /\ run' = [run EXCEPT ![c] = <<>>] /\ UNCHANGED <<h, g, alive>>
Forward(op, c, xs) ==
    /\ Say([op |-> op, c |-> c, x |-> xs, y |-> R!Outs(P, h[c], xs, T[c]), ok |-> TRUE])
    /\ h' = [h EXCEPT ![c] = R!Hid(P, h[c], xs, T[c])]
    /\ run' = [run EXCEPT ![c] = IF op = "train" THEN Keep(<<[h0 |-> h[c], xs |-> xs, t |-> T[c]]>>) ELSE <<>>]
    /\ UNCHANGED <<T, g, alive>>
Back(c, k) == /\ run[c] # <<>>
              /\ LET r == run[c][1] IN
                 /\ Say([op |-> "back", c |-> c, d |-> Gv(r.t, k), y |-> Inward(r, Gv(r.t, k)), ok |-> TRUE])
                 /\ g' = [g EXCEPT ![c] = [m \in 1..R!NP |-> @[m] + Params(r, Gv(r.t, k))[m]]]
              /\ UNCHANGED <<h, T, run, alive>>
\* a copy shares the learned values and nothing else
Clone(c, d) == /\ d \in Handles \ alive /\ d = Least2(Handles \ alive)
               /\ Say([op |-> "clone", c |-> c, d |-> d, ok |-> TRUE])
               /\ alive' = alive \cup {d} /\ h' = [h EXCEPT ![d] = h[c]] /\ T' = [T EXCEPT ![d] = T[c]] /\ g' = [g EXCEPT ![d] = g[c]]
               /\ run' = [run EXCEPT ![d] = <<>>]
Next == \/ \E c \in Handles : \/ \E v \in States : Set(c, v)
                              \/ Reset(c)
                              \/ \E t \in Steps : Resize(c, t)
                              \/ \E xs \in Seqs(T[c]) : Forward("eval", c, xs) \/ Forward("train", c, xs)
                              \/ \E k \in 0..1 : Back(c, k)
                              \/ \E d \in Handles : Clone(c, d)
Spec == Init /\ [][Next]_vars

\* the state of a layer changes by what is done to that layer
Elsewhere == [][\A c \in alive : c # last'.c => h'[c] = h[c] /\ T'[c] = T[c] /\ g'[c] = g[c]]_vars
OnlyHow == [][\A c \in alive : h'[c] # h[c] => last'.op \in {"set", "reset", "eval", "train"} /\ last'.ok]_vars
\* gradients are linear in what comes in, and the past has none in the future
Linear == [][last'.op = "back" =>
             LET r == run[last'.c][1] IN
             /\ Inward(r, [m \in 1..(r.t * O) |-> 2 * last'.d[m]]) = [m \in 1..(r.t * I) |-> 2 * last'.y[m]]
             /\ \A t \in 1..r.t : (\A m \in ((t - 1) * O + 1)..(r.t * O) : last'.d[m] = 0) => \A m \in ((t - 1) * I + 1)..(r.t * I) : last'.y[m] = 0]_vars
\* what a layer gives next for a fixed input: its state, seen from outside
Probe == [m \in 1..I |-> IF m % 2 = 1 THEN -1 ELSE 1]
S(a, b, c, d, e, k) == [pr |-> [m \in 1..Cardinality(Handles) |-> R!Outs(P, a[m], Probe, 1)], h |-> a, T |-> b, run |-> c, g |-> d, alive |-> SetToSeq(e), k |-> k]
Emit == PrintT(ToJson([a |-> S(h, T, run, g, alive, n), o |-> last', b |-> S(h', T', run', g', alive', n')]))
===============================================================================
