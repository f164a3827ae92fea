------------------------------- MODULE MnistOpen -------------------------------
(* Opening a pair of MNIST files (C09): the two headers are read field by    *)
(* field, in the order of the files; every field is one of a few values, and *)
(* either file may be missing or end early.                                  *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Magics, Counts, Sides, ImgLens, LblLens   \* "ok" marks the right magic

VARIABLES f,      \* the files: [im, ic, rows, cols, il, lm, lc, ll]
          step, verdict
vars == <<f, step, verdict>>
Missing == 99
Init == /\ f \in [im : Magics, ic : Counts, rows : Sides, cols : Sides, il : ImgLens, lm : Magics, lc : Counts, ll : LblLens]
        /\ step = "open" /\ verdict = "?"
\* a field of 4 bytes at offset o can be read if the file is that long
ICan(o) == f.il >= o + 4
LCan(o) == f.ll >= o + 4
Step(s, ok, nxt) == /\ step = s
                    /\ IF ok THEN step' = nxt /\ verdict' = (IF nxt = "end" THEN "open" ELSE "?")
                             ELSE step' = "end" /\ verdict' = "refused"
                    /\ UNCHANGED f
Next == \/ Step("open", f.il # Missing /\ f.ll # Missing, "imagic")
        \/ Step("imagic", ICan(0) /\ f.im = "img", "icount")
        \/ Step("icount", ICan(4), "lmagic")
        \/ Step("lmagic", LCan(0) /\ f.lm = "lbl", "lcount")
        \/ Step("lcount", LCan(4) /\ f.lc = f.ic, "rows")
        \/ Step("rows", ICan(8) /\ f.rows = 28, "cols")
        \/ Step("cols", ICan(12) /\ f.cols = 28, "end")
Spec == Init /\ [][Next]_vars
\* the property: accepted exactly when everything is right
Right == f.il # Missing /\ f.ll # Missing /\ f.il >= 16 /\ f.ll >= 8 /\ f.im = "img" /\ f.lm = "lbl"
         /\ f.ic = f.lc /\ f.rows = 28 /\ f.cols = 28
Exactly == step = "end" => (verdict = "open" <=> Right)
Emit == step = "end" => PrintT(ToJson([f |-> f, v |-> verdict]))
=================================================================================
