---------------------------- MODULE FactorsTrace ----------------------------
(* C17: SamplingFactor::from_factors for all 256 x 256 pairs: the supported    *)
(* pairs get the name that stands for them, all others are refused.            *)
EXTENDS Api, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Check
VARIABLES tid, h, bad
vars == << tid, h, bad >>
T == Trace[tid]
Dead == "crash" \in DOMAIN T

Init == tid \in 1..Len(Trace) /\ h = 0 /\ bad = {}
\* one row: horizontal factor h with every vertical one
Row == /\ ~Dead /\ h < 256
       /\ bad' = bad \cup {<< "C17", "from_factors " \o ToString(h) \o " " \o ToString(v) \o ": " \o T.factors[h + 1][v + 1] >> :
                            v \in {v \in 0..255 : T.factors[h + 1][v + 1] # FromFactors(h, v)}}
       /\ h' = h + 1 /\ UNCHANGED tid
Finish == /\ (Dead \/ h = 256) /\ h < 257
          /\ bad' = IF Dead THEN {<< "C17", "process died" >>} ELSE bad
          /\ PrintT("END " \o T.id \o " done 0 0 " \o ToString(bad'))
          /\ h' = 257 /\ UNCHANGED tid
Next == Row \/ Finish
Spec == Init /\ [][Next]_vars
View == << tid, h >>
Holds == bad = {}
Short == [id |-> T.id, h |-> h, complaints |-> bad]
=============================================================================
