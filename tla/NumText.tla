------------------------------ MODULE NumText -------------------------------
(* Text-to-value conversion (C02), over the same space of edited texts as    *)
(* TypeText.  Numbers are digit sequences, so that the limits of the machine *)
(* types can be compared exactly.                                            *)
EXTENDS TypeText

Strip0(d) == LET nz == {i \in 1..Len(d) : d[i] # "0"} IN
    IF nz = {} THEN <<"0">> ELSE Cut(d, CHOOSE i \in nz : \A j \in nz : i <= j, Len(d))
Ord(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
            [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
\* a <= b on stripped digit sequences
Leq(a, b) == \/ Len(a) < Len(b)
             \/ /\ Len(a) = Len(b)
                /\ \/ a = b
                   \/ \E i \in 1..Len(a) : /\ Ord(a[i]) < Ord(b[i])
                                           /\ \A j \in 1..(i-1) : a[j] = b[j]
S(x) == x   \* readability of the limit tables below
Limit(kind, neg) ==   \* largest magnitude
    CASE kind = "short" -> IF neg THEN <<"3","2","7","6","8">> ELSE <<"3","2","7","6","7">>
      [] kind = "int"   -> IF neg THEN <<"2","1","4","7","4","8","3","6","4","8">>
                                  ELSE <<"2","1","4","7","4","8","3","6","4","7">>
      [] kind = "long"  -> IF neg THEN <<"9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0","8">>
                                  ELSE <<"9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0","7">>
      [] kind = "ushort" -> IF neg THEN <<"0">> ELSE <<"6","5","5","3","5">>
      [] kind = "uint"  -> IF neg THEN <<"0">> ELSE <<"4","2","9","4","9","6","7","2","9","5">>
      [] kind = "ulong" -> IF neg THEN <<"0">> ELSE <<"1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","5">>

Signed == {"short", "int", "long"}
UnsignedKinds == {"ushort", "uint", "ulong"}
Kinds == Signed \union UnsignedKinds
Neg(s) == s # <<>> /\ s[1] = "-"
WholeInt(s) == LET u == Unsigned(s) IN u # <<>> /\ AllDigits(u)
\* The negative half of an unsigned type is a matter of the C++ library: not specified.
Specified(kind, s) == ~(kind \in UnsignedKinds /\ Neg(s))
ConvInt(kind, s) ==
    IF WholeInt(s) /\ Leq(Strip0(Unsigned(s)), Limit(kind, Neg(s)))
    THEN [ok |-> TRUE, neg |-> Neg(s) /\ Strip0(Unsigned(s)) # <<"0">>, mag |-> Strip0(Unsigned(s))]
    ELSE [ok |-> FALSE]

\* decimal numbers: mantissa digits with at most one dot, optional exponent
WholeMant(s) == \E k \in 0..Len(s) :
    /\ AllDigits(Cut(s, 1, k))
    /\ \/ k = Len(s) /\ k > 0
       \/ k < Len(s) /\ s[k+1] = "." /\ Len(s) > 1 /\ AllDigits(Cut(s, k+2, Len(s)))
WholeDec(s) == LET u == Unsigned(s) IN
    \/ WholeMant(u)
    \/ \E k \in 1..Len(u) : /\ u[k] \in {"e", "E"} /\ WholeMant(Cut(u, 1, k-1))
                            /\ IsExponent(Cut(u, k+1, Len(u)))
ConvBool(s) == s = <<"t","r","u","e">> \/ s = <<"1">>

(* What ties C01 and C02 together: whatever is inferred INT or FLOAT is a    *)
(* whole decimal; whatever is inferred INT is a whole integer.               *)
InferredConverts == /\ TypeOf(txt) = "INT" => WholeInt(txt)
                    /\ TypeOf(txt) \in {"INT", "FLOAT"} => WholeDec(txt)
\* a value that fits a narrow type fits the wider one, with the same value
Monotone == /\ ConvInt("short", txt).ok => ConvInt("int", txt) = ConvInt("short", txt)
            /\ ConvInt("int", txt).ok => ConvInt("long", txt) = ConvInt("int", txt)
EmitNum == PrintT(ToJson([t |-> txt,
    i |-> [k \in {q \in Kinds : Specified(q, txt)} |-> ConvInt(k, txt)],
    d |-> WholeDec(txt), b |-> ConvBool(txt)]))
=============================================================================
