----------------------------- MODULE RecurrentMath -----------------------------
(* A recurrent layer over an arithmetic of choice (C23): numbers, to explore   *)
(* histories, or terms, to know the functions over the reals.  Learned values  *)
(* p are one sequence: input to hidden (row by row), hidden to hidden, bias of *)
(* hidden, hidden to output, bias of output.  Derivatives are carried forward  *)
(* through time together with the values, one variable at a time.              *)
EXTENDS Integers, Sequences
CONSTANTS I, O, H,                            \* sizes
          Zero, One, Sum(_), Times(_, _),     \* the arithmetic; Sum of a sequence
          Act(_), Slope(_)                    \* activation, its derivative from its value
Ih(i, j) == (i - 1) * I + j
Hh(i, k) == H * I + (i - 1) * H + k
Bh(i) == H * I + H * H + i
Ho(o, i) == H * I + H * H + H + (o - 1) * H + i
Bo(o) == H * I + H * H + H + O * H + o
NP == H * I + H * H + H + O * H + O
Xi(t, j) == (t - 1) * I + j                   \* input j of step t

RECURSIVE Hid(_, _, _, _), DHid(_, _, _, _, _)
Hid(p, h0, xs, t) ==
    IF t = 0 THEN h0
    ELSE LET prev == Hid(p, h0, xs, t - 1)
         IN [i \in 1..H |-> Act(Sum([j \in 1..I |-> Times(p[Ih(i, j)], xs[Xi(t, j)])] \o [k \in 1..H |-> Times(p[Hh(i, k)], prev[k])] \o <<p[Bh(i)]>>))]
OutOf(p, h) == [o \in 1..O |-> Sum([i \in 1..H |-> Times(p[Ho(o, i)], h[i])] \o <<p[Bo(o)]>>)]
Out(p, h0, xs, t) == OutOf(p, Hid(p, h0, xs, t))
RECURSIVE Flat(_, _)
Flat(f(_), n) == IF n = 0 THEN <<>> ELSE Flat(f, n - 1) \o f(n)
Outs(p, h0, xs, T) == LET f(t) == Out(p, h0, xs, t) IN Flat(f, T)

\* derivatives by variable v: <<"p", n>> learned value n, <<"x", n>> input n
Only(c, x) == IF c THEN <<x>> ELSE <<>>
Is(v, kind, n) == v[1] = kind /\ v[2] = n
DHid(p, h0, xs, t, v) ==
    IF t = 0 THEN [i \in 1..H |-> Zero]
    ELSE LET prev == Hid(p, h0, xs, t - 1)
             now == Hid(p, h0, xs, t)
             dprev == DHid(p, h0, xs, t - 1, v)
             terms(i) == LET own(j) == Only(Is(v, "p", Ih(i, j)), xs[Xi(t, j)]) \o Only(Is(v, "x", Xi(t, j)), p[Ih(i, j)])
                             back(k) == Only(Is(v, "p", Hh(i, k)), prev[k]) \o Only(t > 1 /\ dprev[k] # Zero, Times(p[Hh(i, k)], dprev[k]))
                         IN Flat(own, I) \o Flat(back, H) \o Only(Is(v, "p", Bh(i)), One)
         IN [i \in 1..H |-> IF terms(i) = <<>> THEN Zero ELSE Times(Slope(now[i]), Sum(terms(i)))]
DOut(p, h0, xs, t, v) ==
    LET now == Hid(p, h0, xs, t)
        d == DHid(p, h0, xs, t, v)
        terms(o) == LET f(i) == Only(Is(v, "p", Ho(o, i)), now[i]) \o Only(d[i] # Zero, Times(p[Ho(o, i)], d[i]))
                    IN Flat(f, H) \o Only(Is(v, "p", Bo(o)), One)
    IN [o \in 1..O |-> IF terms(o) = <<>> THEN Zero ELSE Sum(terms(o))]
DOuts(p, h0, xs, T, v) == LET f(t) == DOut(p, h0, xs, t, v) IN Flat(f, T)
===============================================================================
