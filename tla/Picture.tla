------------------------------- MODULE Picture --------------------------------
(* Judges printed images (C09, C10): a list of [side |-> n, light |-> the      *)
(* brightness of each pixel in hundredths, row by row, text |-> its lines as   *)
(* numbers of characters].  Every pixel has its place, two characters wide,    *)
(* and a mark; marks stand for bands of brightness.                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSetsExt
Recorded == JsonDeserialize(IOEnv.RECORDED)
VARIABLE i
Init == i \in 1..Len(Recorded)
Next == FALSE /\ i' = i
Spec == Init /\ [][Next]_i

Placed(r) ==
    /\ Len(r.text) = r.side
    /\ \A y \in 1..r.side : /\ Len(r.text[y]) = 2 * r.side
                            /\ \A x \in 1..r.side : r.text[y][2 * x] = r.text[y][2 * x - 1]
Mark(r, p) == r.text[(p - 1) \div r.side + 1][2 * ((p - 1) % r.side) + 1]
\* whole and half steps of brightness may fall to either side
Judged(r) == {p \in 1..Len(r.light) : r.light[p] \in {0, 25500} \/ r.light[p] % 50 # 0 \/ r.exact}
Bands(r) ==
    LET J == TLCEval(Judged(r))
        marks == TLCEval({Mark(r, p) : p \in J})
        lights == TLCEval([m \in marks |-> {r.light[p] : p \in {q \in J : Mark(r, q) = m}}])
        lo == TLCEval([m \in marks |-> Min(lights[m])])
        hi == TLCEval([m \in marks |-> Max(lights[m])])
    IN /\ \A m, n \in marks : m # n => hi[m] < lo[n] \/ hi[n] < lo[m]
       /\ \A m \in marks : ~(lo[m] = 0 /\ hi[m] = 25500)
Ok(r) == Placed(r) /\ Bands(r)
Judge == Ok(Recorded[i]) \/ PrintT(ToJson([bad |-> i]))
=================================================================================
