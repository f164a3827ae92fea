------------------------------- MODULE FnnBuild -------------------------------
(* What a sequence of layer descriptions means (C22): the chain of layers, the *)
(* shape each one works on, or that the sequence is refused.                    *)
EXTENDS Integers, Sequences, FiniteSets
\* A description: [type, act, u: shape <<h, w, c>>, f, k, s, p: pairs, rate]
Size(sh) == sh[1] * sh[2] * sh[3]
Out(n, k, s, p) == ((n + 2 * p - k) \div s) + 1
Empty == [first |-> TRUE, shape |-> <<0, 1, 1>>, layers |-> <<>>]

OutShape(d, sh) ==
    CASE d.type = "conv" -> <<Out(sh[1], d.k[1], d.s[1], d.p[1]), Out(sh[2], d.k[2], d.s[2], d.p[2]), d.f>>
      [] d.type \in {"max", "avg"} -> <<Out(sh[1], d.k[1], d.s[1], 0), Out(sh[2], d.k[2], d.s[2], 0), sh[3]>>
      [] d.type = "dropout" -> sh                    \* keeps the shape it is given
      [] d.type = "dense" -> <<Size(d.u), 1, 1>>
LayerOf(d, sh) ==
    LET win(kind) == [kind |-> kind, h |-> sh[1], w |-> sh[2], c |-> sh[3], kh |-> d.k[1], kw |-> d.k[2], sh |-> d.s[1], sw |-> d.s[2]] IN
    CASE d.type = "conv" -> [kind |-> "conv", h |-> sh[1], w |-> sh[2], c |-> sh[3], kh |-> d.k[1], kw |-> d.k[2], sh |-> d.s[1], sw |-> d.s[2], ph |-> d.p[1], pw |-> d.p[2], f |-> d.f]
      [] d.type \in {"max", "avg"} -> win(d.type)
      [] d.type = "dropout" -> [kind |-> "drop", in |-> Size(sh), rate |-> d.rate]
      [] d.type = "dense" -> [kind |-> "dense", in |-> Size(sh), out |-> Size(d.u)]
\* no activation is the identity
ActOf(d, n) == [kind |-> IF d.act = "none" THEN "linear" ELSE d.act, in |-> n]

Fits(d, sh) == CASE d.type = "conv" -> sh[1] + 2 * d.p[1] >= d.k[1] /\ sh[2] + 2 * d.p[2] >= d.k[2]
                 [] d.type \in {"max", "avg"} -> sh[1] >= d.k[1] /\ sh[2] >= d.k[2]
                 [] OTHER -> TRUE
\* the property is about networks that say what comes in, and layers that fit
Admissible(st, d) == IF st.first THEN d.type = "input" ELSE d.type = "input" \/ Fits(d, st.shape)
Refused(st, d) == ~st.first /\ d.type = "input"
AddTo(st, d) ==
    IF Refused(st, d) THEN st
    ELSE IF st.first THEN [first |-> FALSE, shape |-> d.u, layers |-> <<>>]
    ELSE LET sh == OutShape(d, st.shape) IN
         [first |-> FALSE, shape |-> sh, layers |-> st.layers \o <<LayerOf(d, st.shape), ActOf(d, Size(sh))>>]

RECURSIVE Chain(_), AnyRefused(_), AllFit(_)
Chain(ds) == IF ds = <<>> THEN Empty ELSE AddTo(Chain(SubSeq(ds, 1, Len(ds) - 1)), ds[Len(ds)])
AnyRefused(ds) == \E i \in 2..Len(ds) : ds[i].type = "input"
AllFit(ds) == \A i \in 1..Len(ds) : Admissible(Chain(SubSeq(ds, 1, i - 1)), ds[i])

InSize(l) == IF l.kind \in {"conv", "max", "avg"} THEN l.h * l.w * l.c ELSE l.in
OutSize(l) == CASE l.kind = "conv" -> Out(l.h, l.kh, l.sh, l.ph) * Out(l.w, l.kw, l.sw, l.pw) * l.f
                [] l.kind \in {"max", "avg"} -> Out(l.h, l.kh, l.sh, 0) * Out(l.w, l.kw, l.sw, 0) * l.c
                [] l.kind = "dense" -> l.out
                [] OTHER -> l.in
\* what a chain has to be, whatever the function above says
WellBuilt(st) ==
    LET L == st.layers IN
    /\ Len(L) % 2 = 0
    /\ \A i \in 1..(Len(L) - 1) : OutSize(L[i]) = InSize(L[i + 1])
    /\ \A i \in 1..Len(L) : OutSize(L[i]) > 0 /\ ((i % 2 = 0) <=> L[i].kind \in {"relu", "elu", "softmax", "tanh", "sigmoid", "linear"})
    /\ (L # <<>> => OutSize(L[Len(L)]) = Size(st.shape))
    \* a window looks at the shape in which the values were produced: shapes of
    \* neighbouring windows agree, whatever dropout stands between them
    /\ \A i, j \in 1..Len(L) :
         (/\ i < j /\ L[i].kind = "conv" /\ L[j].kind \in {"conv", "max", "avg"}
          /\ \A m \in (i + 1)..(j - 1) : L[m].kind \notin {"conv", "max", "avg", "dense"})
         => L[j].c = L[i].f /\ L[j].h = Out(L[i].h, L[i].kh, L[i].sh, L[i].ph) /\ L[j].w = Out(L[i].w, L[i].kw, L[i].sw, L[i].pw)
===============================================================================
