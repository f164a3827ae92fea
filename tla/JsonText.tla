------------------------------ MODULE JsonText ------------------------------
(* The JSON text format (C03, C04).                                          *)
(*                                                                           *)
(* A reader as a push-down automaton, one transition per token.  A token is  *)
(* a structural character, a quoted string, or a bare scalar; the driver     *)
(* spells tokens out as characters.  TLC runs the automaton as a generator:  *)
(* every reachable state is a text that is a prefix of some token string, and*)
(* the automaton says whether the text is                                    *)
(*   "done"  one complete document, with its value                           *)
(*   "open"  cut off inside a container                                      *)
(*   "err"   not a document                                                  *)
(* WriterReader: the writer's text of the value read so far is the very text *)
(* that was read -- reading and writing are inverse on this format.          *)
EXTENDS JsonData

CONSTANTS Strings,     \* set of string payload ids, e.g. {"s1","s2"}
          Scalars,     \* set of bare scalar ids
          Keys,        \* set of key ids
          KeyRank,     \* function Keys -> Nat: the writer's order of keys
          MaxTok,      \* longest text in tokens
          MaxDepth,
          AllowErr     \* TRUE: also explore malformed texts (one bad token)

VARIABLES toks,  \* the tokens read
          stack, \* open containers, innermost last: [k, s] or [k, m, key]
          mode,  \* what is expected next
          val    \* value of the document when mode = "done"
vars == <<toks, stack, mode, val>>

P(c) == <<"p", c>>   \* structural character
Str(i) == <<"s", i>>
Bare(i) == <<"b", i>>
KeyT(i) == <<"k", i>>

Init == toks = <<>> /\ stack = <<>> /\ mode = "value" /\ val = None

Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)

\* A complete value v arrives in the current context.
Deliver(v, st) ==
    IF st = <<>>
    THEN mode' = "done" /\ val' = v /\ stack' = <<>>
    ELSE LET top == st[Len(st)]
             rest == SubSeq(st, 1, Len(st) - 1)
             ntop == IF top.k = "list" THEN [top EXCEPT !.s = Append(@, v)]
                     ELSE [top EXCEPT !.m = [x \in DOMAIN @ \cup {top.key} |-> IF x = top.key THEN v ELSE @[x]],
                                      !.key = ""]
         IN mode' = "after" /\ val' = val /\ stack' = Append(rest, ntop)

Take(t) == toks' = Append(toks, t)
Room == Len(toks) < MaxTok

OpenList == /\ Room /\ mode \in {"value", "value0"} /\ Len(stack) < MaxDepth
            /\ Take(P("[")) /\ stack' = Append(stack, [k |-> "list", s |-> <<>>])
            /\ mode' = "value0" /\ UNCHANGED val
OpenDict == /\ Room /\ mode \in {"value", "value0"} /\ Len(stack) < MaxDepth
            /\ Take(P("{")) /\ stack' = Append(stack, [k |-> "dict", m |-> NoKeys, key |-> ""])
            /\ mode' = "key0" /\ UNCHANGED val
CloseList == /\ Room /\ mode \in {"value0", "after"} /\ stack # <<>> /\ Top.k = "list"
             /\ Take(P("]")) /\ Deliver(List(Top.s), Pop)
CloseDict == /\ Room /\ mode \in {"key0", "after"} /\ stack # <<>> /\ Top.k = "dict"
             /\ Take(P("}")) /\ Deliver(Dict(Top.m), Pop)
Comma == /\ Room /\ mode = "after"
         /\ Take(P(",")) /\ mode' = (IF Top.k = "list" THEN "value" ELSE "key")
         /\ UNCHANGED <<stack, val>>
\* keys arrive in the writer's order, so that the text is the canonical one
Key == /\ Room /\ mode \in {"key0", "key"}
       /\ \E i \in Keys : /\ \A x \in DOMAIN Top.m : KeyRank[x] < KeyRank[i]
                          /\ Take(KeyT(i)) /\ stack' = Append(Pop, [Top EXCEPT !.key = i])
       /\ mode' = "colon" /\ UNCHANGED val
Colon == /\ Room /\ mode = "colon"
         /\ Take(P(":")) /\ mode' = "value" /\ UNCHANGED <<stack, val>>
Scalar == /\ Room /\ mode \in {"value", "value0"}
          /\ \/ \E i \in Strings : Take(Str(i)) /\ Deliver(Leaf(Str(i)), stack)
             \/ \E i \in Scalars : Take(Bare(i)) /\ Deliver(Leaf(Bare(i)), stack)
\* One token that the grammar does not allow here: the text is not a document.
Bad == /\ AllowErr /\ Room /\ mode \notin {"done", "err"}
       /\ \E t \in {P("["), P("]"), P("{"), P("}"), P(","), P(":"), P("q")}
                   \cup {Str(i) : i \in Strings} \cup {Bare(i) : i \in Scalars} :
            /\ LET c == t[2] IN
               ~ CASE c = "[" \/ c = "{" -> mode \in {"value", "value0"}
                   [] c = "]" -> mode \in {"value0", "after"} /\ Top.k = "list"
                   [] c = "}" -> mode \in {"key0", "after"} /\ Top.k = "dict"
                   [] c = "," -> mode = "after"
                   [] c = ":" -> mode = "colon"
                   [] c = "q" -> FALSE          \* a lone quotation mark
                   [] OTHER -> mode \in {"value", "value0"}
                               \/ (mode \in {"key0", "key"} /\ t[1] = "s")
            /\ Take(t)
       /\ mode' = "err" /\ UNCHANGED <<stack, val>>

Next == OpenList \/ OpenDict \/ CloseList \/ CloseDict \/ Comma \/ Key \/ Colon \/ Scalar \/ Bad
Spec == Init /\ [][Next]_vars

(* -------------------------------- the writer ----------------------------- *)
RECURSIVE Write(_)
SortKeys(S) == CHOOSE q \in [1..Cardinality(S) -> S] :
    /\ \A x \in S : \E i \in 1..Cardinality(S) : q[i] = x
    /\ \A i \in 1..(Cardinality(S) - 1) : KeyRank[q[i]] < KeyRank[q[i+1]]
Write(t) ==
    CASE t.k = "leaf" -> <<t.v>>
      [] t.k = "list" ->
            LET f[i \in 0..Len(t.s)] == IF i = 0 THEN <<>>
                    ELSE f[i-1] \o (IF i > 1 THEN <<P(",")>> ELSE <<>>) \o Write(t.s[i])
            IN <<P("[")>> \o f[Len(t.s)] \o <<P("]")>>
      [] t.k = "dict" ->
            LET q == SortKeys(DOMAIN t.m)
                f[i \in 0..Len(q)] == IF i = 0 THEN <<>>
                    ELSE f[i-1] \o (IF i > 1 THEN <<P(",")>> ELSE <<>>)
                         \o <<KeyT(q[i]), P(":")>> \o Write(t.m[q[i]])
            IN <<P("{")>> \o f[Len(q)] \o <<P("}")>>

WriterReader == mode = "done" => Write(val) = toks
\* a strict prefix of a document that opens a container is never a document
NoEarlyEnd == (mode = "done" /\ Len(toks) > 1) => toks[Len(toks)] \in {P("]"), P("}")}
Status == CASE mode = "done" -> "done" [] mode = "err" -> "err"
            [] stack # <<>> -> "open" [] OTHER -> "empty"
Emit == PrintT(ToJson([t |-> toks, s |-> Status, v |-> val]))
=============================================================================
