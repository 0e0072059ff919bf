---------------------------- MODULE CallbackTrace ----------------------------
(* C20: the callbacks of the encoder's user (sink and image source) when one    *)
(* of them panics or misbehaves.  Every recorded run is stepped through the     *)
(* protocols Sink and Source callback by callback.                              *)
(* A record: [id, ref: what a run without panic or error delivers, run, sane:   *)
(* the image delivers what it declares, logged].                                *)
EXTENDS Sink, Source, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Check

VARIABLES tid, ph, i, sink, src, fault, gone, bad
vars == << tid, ph, i, sink, src, fault, gone, bad >>

T == Trace[tid]
Ev == T.run.ev
E == Ev[Len(Ev)]
Dead == "crash" \in DOMAIN T.run
Early == ~Dead /\ E.op # "encode"     \* a call before encode ended the run
Complain(c, text) == IF c THEN {} ELSE {<< "C20", text >>}

\* fault: << kind, number of the call >> of the callback that panicked
None == << -1, -1 >>
Init == /\ tid \in 1..Len(Trace)
        /\ ph = "call" /\ i = 1
        /\ sink = SinkInit /\ src = SourceInit /\ fault = None
        /\ gone = << 0, 0 >> /\ bad = {}

\* how many calls of this kind came before the j-th
NumberOf(j) == Cardinality({n \in 1..(j - 1) : E.calls[n][1] = E.calls[j][1]})
Failed == sink.failed \/ src.failed \/ fault # None

\* one callback.  Once one has failed nothing is written, flushed or asked for any more
Call ==
  /\ ph = "call" /\ (IF Dead \/ Early THEN FALSE ELSE i <= Len(E.calls))
  /\ LET k == E.calls[i][1]
         n == E.calls[i][2]
         o == E.calls[i][3]
         released == (k \in {0, 1} /\ gone[1] > 0) \/ (k \in 3..6 /\ gone[2] > 0)
     IN /\ sink' = IF k \in {0, 1} THEN SinkStep(sink, [kind |-> k, n |-> n, out |-> o]) ELSE sink
        /\ src'  = IF k = 3 THEN SourceStep(src, n, o) ELSE src
        /\ fault' = IF o = Panic /\ fault = None THEN << k, IF k = 1 THEN -1 ELSE NumberOf(i) >> ELSE fault
        /\ gone' = << gone[1] + (IF k = 2 THEN 1 ELSE 0), gone[2] + (IF k = 7 THEN 1 ELSE 0) >>
        /\ bad' = bad
             \cup Complain(~Failed \/ k \notin {0, 1, 3}, "called again after a callback failed")
             \cup Complain(~T.sane \/ k # 3 \/ MayAsk(src, n, E.h), "row out of order")
             \cup Complain(~released, "called after it was dropped")
  /\ i' = i + 1
  /\ UNCHANGED << tid, ph >>

Prefix(a, b) == Len(a) <= Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]

Return ==
  /\ ph = "call"
  /\ IF Dead \/ Early THEN TRUE ELSE i > Len(E.calls)
  /\ bad' = bad \cup
       (IF Dead THEN {<< "C20", "process died: " \o T.run.crash >>}
        ELSE IF Early THEN {<< "C20", "encode was not reached" >>}
        ELSE
             Complain(fault = None \/ (E.res.k = "panic" /\ E.res.m = "callback panic " \o ToString(fault[2])), "a callback's panic did not reach the caller")
        \cup Complain(fault # None \/ ~sink.failed \/ E.res.k = "err", "a failure of the sink did not reach the caller")
        \cup Complain(Failed \/ ~T.sane \/ (E.res.k = "ok" /\ E.out = T.ref /\ src.rows \in {0, E.h}), "a run without failures did not succeed")
        \cup Complain(~T.sane \/ Prefix(E.out, T.ref), "the delivered bytes are not a prefix of the stream")
        \cup Complain(~T.logged \/ gone = << 1, IF E.via = "buf" THEN 1 ELSE 0 >>, "sink or image not released exactly once"))
  /\ ph' = "done"
  /\ UNCHANGED << tid, i, sink, src, fault, gone >>

Finish ==
  /\ ph = "done"
  /\ PrintT("END " \o T.id \o " done 0 0 " \o ToString(bad))
  /\ ph' = "end" /\ UNCHANGED << tid, i, sink, src, fault, gone, bad >>

Next == Call \/ Return \/ Finish
Spec == Init /\ [][Next]_vars
View == << tid, ph, i >>
Holds == bad = {}
Short == [id |-> T.id, call |-> i, sink |-> sink, source |-> src, fault |-> fault, result |-> IF Dead \/ Early THEN "died" ELSE E.res.k \o " " \o E.res.e \o " " \o E.res.m, complaints |-> bad]
=============================================================================
