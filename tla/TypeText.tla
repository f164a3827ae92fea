------------------------------ MODULE TypeText ------------------------------
(* Type inference of a text field (C01).                                     *)
(*                                                                           *)
(* The specification is a deterministic scanner: one transition per          *)
(* character.  Independently, DeclType states the grammar declaratively (a   *)
(* text is an INT iff it can be cut into sign, digits ...).  The invariant   *)
(* Agree, checked by TLC on every reachable text, says that both say the     *)
(* same; Emit prints every text with its type, to be put to the code.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Alphabet,    \* set of one-character strings
          Seeds,       \* set of sequences of characters to start from
          MaxLen,      \* longest text
          Edits        \* how many edits (append/insert/delete/replace)

VARIABLES txt,  \* the text, as a sequence of characters
          left  \* edits left

vars == <<txt, left>>

Digits == {"0","1","2","3","4","5","6","7","8","9"}
NonZero == Digits \ {"0"}

(* ------------------------------ the scanner ------------------------------ *)
(* states: start, sign, zero (one 0: an int), int, dig (digits, leading 0),  *)
(* dot, frac, exp, expsign, expdig, words t tr tru true f fa fal fals false, *)
(* junk                                                                      *)
Word(q, c) ==
    CASE q = "start" /\ c = "t" -> "t"
      [] q = "start" /\ c = "f" -> "f"
      [] q = "t" /\ c = "r" -> "tr"
      [] q = "tr" /\ c = "u" -> "tru"
      [] q = "tru" /\ c = "e" -> "true"
      [] q = "f" /\ c = "a" -> "fa"
      [] q = "fa" /\ c = "l" -> "fal"
      [] q = "fal" /\ c = "s" -> "fals"
      [] q = "fals" /\ c = "e" -> "false"
      [] OTHER -> "junk"

Delta(q, c) ==
    CASE q = "start" /\ c \in {"+", "-"} -> "sign"
      [] q \in {"start", "sign"} /\ c = "0" -> "zero"
      [] q \in {"start", "sign"} /\ c \in NonZero -> "int"
      [] q = "int" /\ c \in Digits -> "int"
      [] q \in {"zero", "dig"} /\ c \in Digits -> "dig"
      [] q \in {"start", "sign", "zero", "int", "dig"} /\ c = "." -> "dot"
      [] q \in {"dot", "frac"} /\ c \in Digits -> "frac"
      [] q \in {"zero", "int", "dig", "frac"} /\ c \in {"e", "E"} -> "exp"
      [] q = "exp" /\ c \in {"+", "-"} -> "expsign"
      [] q \in {"exp", "expsign", "expdig"} /\ c \in Digits -> "expdig"
      [] OTHER -> Word(q, c)

Verdict(q) ==
    CASE q = "start" -> "NONE"
      [] q \in {"zero", "int"} -> "INT"
      [] q \in {"dig", "frac", "expdig"} -> "FLOAT"
      [] q \in {"true", "false"} -> "BOOL"
      [] OTHER -> "STRING"

Scan(s) == FoldLeft(Delta, "start", s)
TypeOf(s) == Verdict(Scan(s))

(* ------------------------- the grammar, declaratively -------------------- *)
Cut(s, i, j) == SubSeq(s, i, j)
AllDigits(s) == \A i \in 1..Len(s) : s[i] \in Digits
Unsigned(s) == IF s # <<>> /\ s[1] \in {"+", "-"} THEN Tail(s) ELSE s
IsInt(s) == LET u == Unsigned(s) IN
    /\ u # <<>> /\ AllDigits(u) /\ (u[1] = "0" => Len(u) = 1)
IsMantissa(s) == \E k \in 0..Len(s) :            \* k digits, then maybe a dot
    /\ AllDigits(Cut(s, 1, k))
    /\ \/ k = Len(s) /\ k > 0
       \/ k < Len(s) /\ s[k+1] = "." /\ k + 1 < Len(s) /\ AllDigits(Cut(s, k+2, Len(s)))
IsExponent(s) == LET u == Unsigned(s) IN u # <<>> /\ AllDigits(u)
IsDecimal(s) == LET u == Unsigned(s) IN
    \/ IsMantissa(u)
    \/ \E k \in 1..Len(u) : /\ u[k] \in {"e", "E"}
                            /\ IsMantissa(Cut(u, 1, k-1))
                            /\ IsExponent(Cut(u, k+1, Len(u)))
DeclType(s) ==
    CASE s = <<>> -> "NONE"
      [] s = <<"t","r","u","e">> \/ s = <<"f","a","l","s","e">> -> "BOOL"
      [] IsInt(s) -> "INT"
      [] IsDecimal(s) -> "FLOAT"
      [] OTHER -> "STRING"

(* ------------------------------ exploration ------------------------------ *)
Init == txt \in Seeds /\ left = Edits

Append1 == /\ left > 0 /\ Len(txt) < MaxLen
           /\ \E c \in Alphabet : txt' = Append(txt, c)
           /\ left' = left - 1
Insert1 == /\ left > 0 /\ Len(txt) < MaxLen
           /\ \E c \in Alphabet, i \in 1..Len(txt) :
                txt' = Cut(txt, 1, i-1) \o <<c>> \o Cut(txt, i, Len(txt))
           /\ left' = left - 1
Delete1 == /\ left > 0
           /\ \E i \in 1..Len(txt) : txt' = RemoveAt(txt, i)
           /\ left' = left - 1
Replace1 == /\ left > 0
            /\ \E c \in Alphabet, i \in 1..Len(txt) : txt' = [txt EXCEPT ![i] = c]
            /\ left' = left - 1
Next == Append1 \/ Insert1 \/ Delete1 \/ Replace1
Spec == Init /\ [][Next]_vars

View == txt
Agree == TypeOf(txt) = DeclType(txt)
Total == TypeOf(txt) \in {"NONE", "INT", "FLOAT", "BOOL", "STRING"}
Emit == PrintT(ToJson([t |-> txt, y |-> TypeOf(txt)]))
=============================================================================
