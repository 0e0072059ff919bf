-------------------------------- MODULE Sink --------------------------------
(* The sink protocol: what a sink can do with a call and what its user may do  *)
(* afterwards.  Shared by the model MC_Encoder and the trace specification.    *)
EXTENDS Integers

\* kind 0: write of n bytes, kind 1: flush.  out >= 0: bytes accepted, -1: error, -2: interrupted,
\* -3: the sink panicked
Panic == -3
SinkInit == [got |-> 0, failed |-> FALSE, flushed |-> FALSE, why |-> "none"]

SinkStep(s, c) ==
  CASE c.out = -2 -> [s EXCEPT !.flushed = FALSE]
    [] c.out = Panic -> [s EXCEPT !.failed = TRUE, !.flushed = FALSE, !.why = "panic"]
    [] c.out = -1 -> [s EXCEPT !.failed = TRUE, !.flushed = FALSE, !.why = IF c.kind = 0 THEN "write" ELSE "flush"]
    [] c.kind = 1 -> [s EXCEPT !.flushed = TRUE]
    [] c.n > 0 /\ c.out = 0 -> [s EXCEPT !.failed = TRUE, !.why = "zero", !.flushed = FALSE]
    [] OTHER -> [s EXCEPT !.got = @ + c.out, !.flushed = @ /\ c.out = 0]

\* no call after a failure
MayCall(s, c) == ~s.failed

\* the error that has to be reported: exactly the value the sink returned.  name: which error the
\* sink was told to return; kind and os are those of io::Error, "" and -1 for the other variants
FaultText(why) == IF why = "flush" THEN "flush fault 4712" ELSE "sink fault 4711"
Custom == {"WouldBlock", "TimedOut", "BrokenPipe", "UnexpectedEof", "WriteZero", "InvalidInput", "InvalidData",
           "PermissionDenied", "ConnectionReset", "OutOfMemory"}
SinkError(name, why, std) ==
  LET io(kind) == [e |-> "Sink", a |-> 0, b |-> 0, m |-> FaultText(why), kind |-> kind, os |-> -1]
      own(e, a, b) == [e |-> e, a |-> a, b |-> b, m |-> "", kind |-> "", os |-> -1]
  IN CASE name = "" -> io(IF std THEN "Other" ELSE "")
       [] name \in Custom -> io(name)
       [] name = "os28" -> [e |-> "Io", a |-> 0, b |-> 0, m |-> "No space left on device (os error 28)", kind |-> "StorageFull", os |-> 28]
       [] name = "os32" -> [e |-> "Io", a |-> 0, b |-> 0, m |-> "Broken pipe (os error 32)", kind |-> "BrokenPipe", os |-> 32]
       [] name = "BadImageData" -> own(name, 71, 72)
       [] name = "InvalidAppSegment" -> own(name, 73, 0)
       [] name = "AppSegmentTooLarge" -> own(name, 74, 0)
       [] name = "IccTooLarge" -> own(name, 75, 0)
       [] name = "ZeroImageDimensions" -> own(name, 76, 77)

\* a sink that accepts nothing makes write_all fail with WriteZero
IsSinkError(s, res, name, std) ==
  IF s.why = "zero" THEN res.e = "Io" /\ res.kind = "WriteZero"
  ELSE [e |-> res.e, a |-> res.a, b |-> res.b, m |-> res.m, kind |-> res.kind, os |-> res.os] = SinkError(name, s.why, std)
=============================================================================
