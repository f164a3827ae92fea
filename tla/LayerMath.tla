------------------------------ MODULE LayerMath -------------------------------
(* The functions the layers compute and their derivatives, over integers.      *)
(* Tensors are flat sequences: row by row, column by column, channel fastest.  *)
(* A layer is a record with field `kind`; dense: in, out; conv: h, w, c (input *)
(* height, width, channels), kh, kw (kernel), sh, sw (stride), ph, pw          *)
(* (padding), f (filters); max, avg: h, w, c, kh, kw, sh, sw; relu, linear: in.*)
(* The results of "avg" are sums over the windows: the mean is that sum over   *)
(* kh * kw.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Plus(a, b) == a + b
Sum(s) == FoldLeft(Plus, 0, s)
Dot(u, v) == Sum([i \in 1..Len(u) |-> u[i] * v[i]])
Add(u, v) == [i \in 1..Len(u) |-> u[i] + v[i]]
Zeros(n) == [i \in 1..n |-> 0]
Max2(a, b) == IF a > b THEN a ELSE b
MaxOf(s) == FoldLeft(Max2, s[1], s)

\* number of positions of a window of k cells on a side of n cells with p cells
\* of padding at either end, moving by s
Places(n, k, s, p) == IF n = 0 THEN 0 ELSE ((n + 2 * p - k) \div s) + 1
Windowed(L) == L.kind \in {"conv", "max", "avg"}
Pad(L) == IF L.kind = "conv" THEN <<L.ph, L.pw>> ELSE <<0, 0>>
OutH(L) == Places(L.h, L.kh, L.sh, Pad(L)[1])
OutW(L) == Places(L.w, L.kw, L.sw, Pad(L)[2])
OutC(L) == IF L.kind = "conv" THEN L.f ELSE L.c
InSize(L) == IF Windowed(L) THEN L.h * L.w * L.c ELSE L.in
OutSize(L) == CASE Windowed(L) -> OutH(L) * OutW(L) * OutC(L) [] L.kind = "dense" -> L.out [] OTHER -> L.in
WeightCount(L) == CASE L.kind = "dense" -> L.in * L.out [] L.kind = "conv" -> L.kh * L.kw * L.c * L.f [] OTHER -> 0
BiasCount(L) == CASE L.kind = "dense" -> L.out [] L.kind = "conv" -> L.f [] OTHER -> 0
ParamCount(L) == WeightCount(L) + BiasCount(L)
Admissible(L) == Windowed(L) => /\ L.kh >= 1 /\ L.kw >= 1 /\ L.sh >= 1 /\ L.sw >= 1
                                /\ L.kh <= L.h + 2 * Pad(L)[1] /\ L.kw <= L.w + 2 * Pad(L)[2]

At(L, r, c, ch) == (r * L.w + c) * L.c + ch + 1         \* input index, from zero based coordinates
OutAt(L, r, c, f) == (r * OutW(L) + c) * OutC(L) + f + 1
RowOf(L, o) == (o - 1) \div (OutW(L) * OutC(L))
ColOf(L, o) == ((o - 1) \div OutC(L)) % OutW(L)
ChanOf(L, o) == (o - 1) % OutC(L)
\* the cells of the window at output (r, c): <<kernel row, kernel column, input row, input column>>
Window(L, r, c) ==
    [i \in 1..(L.kh * L.kw) |->
        LET kr == (i - 1) \div L.kw  kc == (i - 1) % L.kw
        IN <<kr, kc, r * L.sh - Pad(L)[1] + kr, c * L.sw - Pad(L)[2] + kc>>]
Inside(L, cell) == cell[3] >= 0 /\ cell[3] < L.h /\ cell[4] >= 0 /\ cell[4] < L.w
KAt(L, kr, kc, ch, f) == ((kr * L.kw + kc) * L.c + ch) * L.f + f + 1

\* -------------------------------------------------------------- functions
DenseF(L, p, x) == [o \in 1..L.out |-> p[L.in * L.out + o] + Sum([i \in 1..L.in |-> p[(o - 1) * L.in + i] * x[i]])]
ConvF(L, p, x) ==
    [o \in 1..OutSize(L) |->
        LET f == ChanOf(L, o) W == Window(L, RowOf(L, o), ColOf(L, o))
        IN p[WeightCount(L) + f + 1] +
           Sum([i \in 1..Len(W) |-> IF ~Inside(L, W[i]) THEN 0
                ELSE Sum([c1 \in 1..L.c |-> x[At(L, W[i][3], W[i][4], c1 - 1)] * p[KAt(L, W[i][1], W[i][2], c1 - 1, f)]])])]
PoolValues(L, x, o) == LET W == Window(L, RowOf(L, o), ColOf(L, o)) IN [i \in 1..Len(W) |-> x[At(L, W[i][3], W[i][4], ChanOf(L, o))]]
Forward(L, p, x) ==
    CASE L.kind = "dense" -> DenseF(L, p, x)
      [] L.kind = "conv" -> ConvF(L, p, x)
      [] L.kind = "max" -> [o \in 1..OutSize(L) |-> MaxOf(PoolValues(L, x, o))]
      [] L.kind = "avg" -> [o \in 1..OutSize(L) |-> Sum(PoolValues(L, x, o))]
      [] L.kind = "relu" -> [i \in 1..L.in |-> Max2(x[i], 0)]
      [] OTHER -> x
\* A dropout layer (kind drop: in, rate) only drops in training; here the rate
\* is 0 or 1, in between see Dropout.tla.
TrainForward(L, p, x) == IF L.kind = "drop" /\ L.rate = 1 THEN Zeros(L.in) ELSE Forward(L, p, x)
\* ------------------------------------------------------------- derivatives
\* what output o contributes to input index a: the coefficient of its gradient
Coeff(L, p, x, o, a) ==
    LET ch == (a - 1) % L.c  col == ((a - 1) \div L.c) % L.w  row == (a - 1) \div (L.c * L.w)
        kr == row - (RowOf(L, o) * L.sh - Pad(L)[1])  kc == col - (ColOf(L, o) * L.sw - Pad(L)[2])
        hit == kr >= 0 /\ kr < L.kh /\ kc >= 0 /\ kc < L.kw
    IN IF ~hit THEN 0 ELSE
       CASE L.kind = "conv" -> p[KAt(L, kr, kc, ch, ChanOf(L, o))]
         [] L.kind = "avg" -> IF ChanOf(L, o) = ch THEN 1 ELSE 0
         [] L.kind = "max" -> IF ChanOf(L, o) = ch /\ x[a] = MaxOf(PoolValues(L, x, o)) THEN 1 ELSE 0
InGrad(L, p, x, g) ==
    CASE L.kind = "dense" -> [i \in 1..L.in |-> Sum([o \in 1..L.out |-> p[(o - 1) * L.in + i] * g[o]])]
      [] Windowed(L) -> [a \in 1..InSize(L) |-> Sum([o \in 1..OutSize(L) |-> IF g[o] = 0 THEN 0 ELSE g[o] * Coeff(L, p, x, o, a)])]
      [] L.kind = "relu" -> [i \in 1..L.in |-> IF x[i] > 0 THEN g[i] ELSE 0]
      [] L.kind = "drop" -> IF L.rate = 1 THEN Zeros(L.in) ELSE g
      [] OTHER -> g
ParGrad(L, p, x, g) ==
    CASE L.kind = "dense" -> [k \in 1..ParamCount(L) |->
             IF k > L.in * L.out THEN g[k - L.in * L.out] ELSE g[((k - 1) \div L.in) + 1] * x[((k - 1) % L.in) + 1]]
      [] L.kind = "conv" -> [k \in 1..ParamCount(L) |->
             LET f == IF k > WeightCount(L) THEN k - WeightCount(L) - 1 ELSE (k - 1) % L.f
                 ch == ((k - 1) \div L.f) % L.c
                 kc == ((k - 1) \div (L.f * L.c)) % L.kw
                 kr == (k - 1) \div (L.f * L.c * L.kw)
             IN Sum([q \in 1..(OutH(L) * OutW(L)) |->
                    LET r == (q - 1) \div OutW(L) c == (q - 1) % OutW(L)
                        ir == r * L.sh - L.ph + kr  ic == c * L.sw - L.pw + kc
                    IN IF k > WeightCount(L) THEN g[OutAt(L, r, c, f)]
                       ELSE IF ir < 0 \/ ir >= L.h \/ ic < 0 \/ ic >= L.w THEN 0
                       ELSE g[OutAt(L, r, c, f)] * x[At(L, ir, ic, ch)]])]
      [] OTHER -> <<>>
\* no two cells of a window hold the same greatest value: the winner is known
NoTies(L, x) == L.kind = "max" => \A o \in 1..OutSize(L) : LET v == PoolValues(L, x, o) IN Cardinality({i \in 1..Len(v) : v[i] = MaxOf(v)}) = 1
===============================================================================
