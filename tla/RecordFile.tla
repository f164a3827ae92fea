------------------------------ MODULE RecordFile ------------------------------
(* Random access to the records of MNIST (two files) and CIFAR (one file)    *)
(* (C09, C10).  Bytes are grouped into units: an image is two units (so that *)
(* a file can end in the middle of one), a label Lab units.  A unit of the   *)
(* file is its own offset + 1; 0 stands for what is missing behind the end.  *)
(* A stream has a position and a failure flag that a short read sets; the    *)
(* property is that neither can be observed.                                 *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kind,      \* "mnist": images and labels in two files; "cifar": one file
          Lab,       \* units of a label
          Count,     \* announced number of records
          LenI, LenL,\* units present (of the image file / single file, of the label file)
          Idx        \* indices asked for

VARIABLES img, lbl, last       \* streams: [pos, fail]
vars == <<img, lbl, last>>
View == <<img, lbl>>
Fresh == [pos |-> 0, fail |-> FALSE]

ImgAt(k) == IF Kind = "mnist" THEN 2 * k ELSE (2 + Lab) * k + Lab
LblAt(k) == IF Kind = "mnist" THEN k ELSE (2 + Lab) * k
LblLen == IF Kind = "mnist" THEN LenL ELSE LenI
Unit(o, len) == IF o < len THEN o + 1 ELSE 0
\* what the file holds, whatever happened before
ImgBytes(k) == <<Unit(ImgAt(k), LenI), Unit(ImgAt(k) + 1, LenI)>>
LblBytes(k) == [j \in 1..Lab |-> Unit(LblAt(k) + j - 1, LblLen)]

\* the stream: clear the failure, seek, read n units
SeekRead(st, at, n, len) ==
    LET got == IF at >= len THEN 0 ELSE IF at + n <= len THEN n ELSE len - at
    IN [st |-> [pos |-> IF at > len THEN at ELSE at + got, fail |-> got < n],
        v |-> [j \in 1..n |-> IF j <= got THEN at + j ELSE 0]]
ReadImg(st, k) == SeekRead(st, ImgAt(k), 2, LenI)
ReadLbl(st, k) == SeekRead(st, LblAt(k), Lab, LblLen)

Init == img = Fresh /\ lbl = Fresh /\ last = [op |-> "open", i |-> 0, img |-> <<>>, lbl |-> <<>>]
Op(n, i, a, b) == last' = [op |-> n, i |-> i, img |-> a, lbl |-> b]
Image == Count > 0 /\ \E i \in Idx : LET r == ReadImg(img, i % Count) IN
    /\ img' = r.st /\ UNCHANGED lbl /\ Op("image", i, r.v, <<>>)
Label == Count > 0 /\ \E i \in Idx :
    IF Kind = "mnist"
    THEN LET r == ReadLbl(lbl, i % Count) IN lbl' = r.st /\ UNCHANGED img /\ Op("label", i, <<>>, r.v)
    ELSE LET r == ReadLbl(img, i % Count) IN img' = r.st /\ UNCHANGED lbl /\ Op("label", i, <<>>, r.v)
Both(n) == Count > 0 /\ \E i \in Idx :
    LET r == ReadImg(img, i % Count) IN
    IF Kind = "mnist"
    THEN LET s == ReadLbl(lbl, i % Count) IN img' = r.st /\ lbl' = s.st /\ Op(n, i, r.v, s.v)
    ELSE LET s == ReadLbl(r.st, i % Count) IN img' = s.st /\ UNCHANGED lbl /\ Op(n, i, r.v, s.v)
Item == Both("item")
Entry == Both("entry")
Refused == Count = 0 /\ \E n \in {"image", "label", "item", "entry"}, i \in Idx :
    Op(n, i, <<>>, <<>>) /\ UNCHANGED <<img, lbl>>
Next == Image \/ Label \/ Item \/ Entry \/ Refused
Spec == Init /\ [][Next]_vars

HistoryFree == [][Count > 0 =>
    /\ last'.op \in {"image", "item", "entry"} => last'.img = ImgBytes(last'.i % Count)
    /\ last'.op \in {"label", "item", "entry"} => last'.lbl = LblBytes(last'.i % Count)]_vars
Emit == PrintT(ToJson([a |-> View, o |-> last', b |-> View']))
================================================================================
