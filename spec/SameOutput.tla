----------------------------- MODULE SameOutput -----------------------------
(* The output is a function of the final configuration and of the picture.     *)
(* A record is a group of runs [id, runs: << [id, build, ev], ... >>] which the *)
(* specification itself finds to be equivalent: Key abstracts from history,    *)
(* aliases, pixel format, padding data, image source and build.                *)
(*   C12: same calls, different builds and writers                             *)
(*   C13: different histories with the same final settings                     *)
(*   C14: different pixel formats and sources of the same component rows       *)
(*   C10: histories with refused calls or surplus data against ones without    *)
EXTENDS Api, Color, Quant, SequencesExt, Json, IOUtils

CONSTANT Check
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, i, ph, bad
vars == << tid, i, ph, bad >>

T == Trace[tid]
Runs == T.runs
Enc(r) == r.ev[Len(r.ev)]

RECURSIVE Final(_, _, _)
Final(ev, n, c) ==       \* configuration after the calls, as the specification sees it
  IF n > Len(ev) \/ ev[n].op = "encode" THEN c
  ELSE Final(ev, n + 1, IF ev[n].op = "new" THEN NewCfg(ev[n].q) ELSE Apply(c, ev[n])[1])

Payload(s) == [j \in 1..SegLen(s) |-> SegByte(s, j - 1)]
\* settings that decide the output
CfgKey(c) == << c.density, Factors(c.sampling), QTable(c.ql, c.q, TRUE), QTable(c.qc, c.q, FALSE),
                c.scans, c.restart, c.optimize,
                [j \in DOMAIN c.segs |-> << c.segs[j].nr, Payload(c.segs[j]) >>] >>
Planes(e) ==
  IF T.pics THEN << e.pic >>        \* the same picture by construction: its digest
  ELSE TLCEval([j \in 1..(e.w * e.h) |-> [c \in 1..NumComps(JpegType(e.ct)) |-> Component(e.ct, e.px, (j - 1) * e.bpp, c)]])
KeyOf(r) == LET e == Enc(r) IN
  << CfgKey(Final(r.ev, 1, NewCfg(0))), e.w, e.h, JpegType(e.ct), IF EncodeResult(e).k = "ok" THEN Planes(e) ELSE << >>, EncodeResult(e) >>

Result(r) == LET e == Enc(r) IN << e.res.k, e.res.e, e.res.a, e.res.b, e.outlen, e.dig >>

Died(r) == "crash" \in DOMAIN r \/ Len(r.ev) = 0
\* C14: the rows a user image is asked for
RowsOK(r) ==
  LET e == Enc(r)
      n == Len(e.rows)
  IN Died(r) \/ e.via # "buf" \/ e.res.k # "ok" \/ ~T.rows \/
     /\ n >= e.h
     /\ e.rows[1] = 0
     /\ e.rows[n] = e.h - 1
     /\ \A j \in 2..n : e.rows[j] - e.rows[j - 1] \in 0..1
     /\ e.shapes

Init == tid \in 1..Len(Trace) /\ i = 1 /\ ph = "run" /\ bad = {}

Compare ==
  /\ ph = "run" /\ i <= Len(Runs)
  /\ LET a == Runs[1]
         b == Runs[i]
     IN bad' = bad
          \cup (IF Died(a) /\ Died(b) THEN {}
                ELSE IF Died(a) \/ Died(b) THEN {<< Check, "one of the runs died: " \o a.id \o " " \o b.id >>}
                ELSE IF Result(a) = Result(b) \/ KeyOf(a) # KeyOf(b) THEN {}
                ELSE {<< Check, "different output: " \o a.id \o " " \o a.build \o " / " \o b.id \o " " \o b.build >>})
          \cup (IF RowsOK(b) THEN {} ELSE {<< "C14", "rows requested from the image: " \o b.id >>})
          \* the grouping itself is checked here, not trusted
          \cup (IF i = 1 \/ Died(a) \/ Died(b) \/ KeyOf(a) = KeyOf(b) THEN {} ELSE {<< "GROUP", "not equivalent: " \o b.id >>})
  /\ i' = i + 1
  /\ UNCHANGED << tid, ph >>

Finish ==
  /\ ph = "run" /\ i > Len(Runs)
  /\ PrintT("END " \o T.id \o " done 0 0 " \o ToString(bad))
  /\ ph' = "end" /\ UNCHANGED << tid, i, bad >>

Next == Compare \/ Finish
Spec == Init /\ [][Next]_vars
View == << tid, i, ph >>
Holds == \A b \in bad : b[1] # Check
Short == [id |-> T.id, run |-> i, complaints |-> bad]
=============================================================================
