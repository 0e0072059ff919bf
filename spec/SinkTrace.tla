----------------------------- MODULE SinkTrace ------------------------------
(* C11: what the encoder may do to its sink.  Every recorded run is stepped    *)
(* through the sink protocol Sink.tla call by call.                            *)
(* A record: [id, ref: bytes a perfect sink receives, run: a trace, strict:    *)
(* the sink sees the encoder's own calls (no buffer in between)].              *)
EXTENDS Sink, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Check

VARIABLES tid, ph, i, s, bad
vars == << tid, ph, i, s, bad >>

T == Trace[tid]
Ev == T.run.ev
E == Ev[Len(Ev)]
Dead == "crash" \in DOMAIN T.run
Complain(c, text) == IF c THEN {} ELSE {<< "C11", text >>}

Init == /\ tid \in 1..Len(Trace)
        /\ ph = "call" /\ i = 1
        /\ s = SinkInit /\ bad = {}

\* one recorded sink call
Call ==
  /\ ph = "call" /\ (IF Dead \/ E.op # "encode" THEN FALSE ELSE i <= Len(E.calls))
  /\ LET c == [kind |-> E.calls[i][1], n |-> E.calls[i][2], out |-> E.calls[i][3]]
         r == SinkStep(s, c)
     IN /\ s' = r
        /\ bad' = bad \cup Complain(~T.strict \/ MayCall(s, c), "sink called again after it failed")
  /\ i' = i + 1
  /\ UNCHANGED << tid, ph >>

Prefix(a, b) == Len(a) <= Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]

\* the result of encode and what has arrived
Return ==
  /\ ph = "call"
  /\ IF Dead \/ E.op # "encode" THEN TRUE ELSE i > Len(E.calls)
  /\ bad' = bad \cup
       (IF Dead THEN {<< "C11", "process died: " \o T.run.crash >>}
        ELSE IF E.op # "encode"
        THEN \* new_file failed: only where nothing can be created
             Complain(T.mayfail /\ E.res.k = "err" /\ E.res.e = "Io", "creating the file failed")
        ELSE
             Complain(T.devfull \/ Prefix(E.out, T.ref), "the delivered bytes are not a prefix of the stream")
        \cup Complain(E.res.k # "panic", "panic")
        \cup Complain(E.res.k # "ok" \/ T.devfull \/ E.out = T.ref, "Ok although the sink did not get the complete stream")
        \cup Complain(E.res.k # "ok" \/ ~T.devfull, "Ok although the device is full")
        \cup Complain(E.res.k # "ok" \/ ~s.failed, "Ok although the sink failed")
        \cup Complain(E.res.k # "ok" \/ ~T.logged \/ s.flushed, "Ok without a final flush")
        \cup Complain(E.res.k # "err" \/ s.failed \/ T.devfull, "error although the sink did not fail")
        \cup Complain(E.res.k # "err" \/ ~s.failed \/ IsSinkError(s, E.res, T.fault, T.std), "not the error of the sink")
        \cup Complain(~T.logged \/ ~T.strict \/ s.got = Len(E.out), "LOG"))
  /\ ph' = "done"
  /\ UNCHANGED << tid, i, s >>

Finish ==
  /\ ph = "done"
  /\ PrintT("END " \o T.id \o " done 0 0 " \o ToString(bad))
  /\ ph' = "end" /\ UNCHANGED << tid, i, s, bad >>

Next == Call \/ Return \/ Finish
Spec == Init /\ [][Next]_vars
View == << tid, ph, i >>
Holds == bad = {}
Short == [id |-> T.id, call |-> i, sink |-> s, result |-> IF Dead THEN "died" ELSE E.res.k \o " " \o E.res.e \o " " \o E.res.m, complaints |-> bad]
=============================================================================
