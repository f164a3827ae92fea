------------------------------- MODULE RunJudge --------------------------------
(* Judges run orders recorded from the code: reads a list of                  *)
(* [e |-> arcs, s |-> starting layers, run |-> arcs in the order run].        *)
EXTENDS RunOrder, TLC, Json, IOUtils, SequencesExt
Recorded == JsonDeserialize(IOEnv.RECORDED)
VARIABLE i
Init == i \in 1..Len(Recorded)
Next == FALSE /\ i' = i
Ok(r) == RunOk(r.run, Range(r.e), Range(r.s))
Judge == Ok(Recorded[i]) \/ PrintT(ToJson([bad |-> i]))
Spec == Init /\ [][Next]_i
=================================================================================
