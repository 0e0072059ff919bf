----------------------------- MODULE MC_Encoder -----------------------------
(* The encoder as a machine in the structure of the code (encode_image_internal*)
(* and its three loops), run against the stream automaton JpegStream and the   *)
(* sink protocol Sink and the image protocol Source: for every request of the  *)
(* configured space, a sink that may fail or panic at any write or at the      *)
(* flush, and an image that may panic at any row.                              *)
(*                                                                             *)
(* With Show, every request is printed; the checks replay each of them in the *)
(* real encoder and validate the recorded stream (StreamTrace).                *)
EXTENDS Api, JpegStream, Sink, Source, Json, SequencesExt

CONSTANTS Types,       \* JPEG colour types
          Samplings, Modes, Widths, Heights, Restarts,
          Faults,      \* TRUE: sink and image may fail
          Perturb,     \* TRUE: one item of the stream is lost, repeated or altered: must not go unnoticed
          Show

MC_Modes == {<< 0, FALSE >>, << 0, TRUE >>, << 2, FALSE >>, << 4, TRUE >>}
MC_ModesAll == {<< n, o >> : n \in {0} \cup (2..64), o \in BOOLEAN}

VARIABLES c, pc, hi, si, by, bx, mcu, togo, rstno, st, sink, sent, bad, src, ask
vars == << c, pc, hi, si, by, bx, mcu, togo, rstno, st, sink, sent, bad, src, ask >>

\* Modes: "base", "opt" or the number of progressive scans, with or without optimization
ModeOf(m) == [prog |-> m[1] # 0, scans |-> m[1], opt |-> m[2]]
Wc == [w |-> c.w, h |-> c.h, jt |-> c.jt, comps |-> ExpComps(c.jt, Factors(c.samp)),
       prog |-> c.scans > 0, scans |-> c.scans, restart |-> c.restart]

Comps == Wc.comps
NC == Len(Comps)
Table(i) == IF Comps[i].luma THEN 0 ELSE 1
Fh == IF c.jt = "Luma" THEN 1 ELSE Factors(c.samp)[1]
Fv == IF c.jt = "Luma" THEN 1 ELSE Factors(c.samp)[2]
MaxFac == Max2(Factors(c.samp)[1], Factors(c.samp)[2])
Interleaved == ~c.opt /\ c.scans = 0 /\ MaxFac <= 2

-----------------------------------------------------------------------------
(* Marker segments in front of the first scan *)
FrameComps == [i \in 1..NC |-> [id |-> i - 1, h |-> Comps[i].h, v |-> Comps[i].v, q |-> Table(i)]]
Header ==
  << [k |-> "SOI"], [k |-> "APP0"] >>
  \o (IF c.jt \in {"Cmyk", "Ycck"} THEN << [k |-> "APP"] >> ELSE << >>)
  \o << [k |-> "SOF", sof |-> IF c.scans > 0 THEN 2 ELSE 0, prec |-> 8, w |-> c.w, h |-> c.h, comps |-> FrameComps],
        [k |-> "DQT", ids |-> {0}], [k |-> "DQT", ids |-> {1}],
        [k |-> "DHT", ids |-> {<< 0, 0 >>}], [k |-> "DHT", ids |-> {<< 1, 0 >>}] >>
  \o (IF NC >= 3 THEN << [k |-> "DHT", ids |-> {<< 0, 1 >>}], [k |-> "DHT", ids |-> {<< 1, 1 >>}] >> ELSE << >>)
  \o (IF c.restart > 0 THEN << [k |-> "DRI", n |-> c.restart] >> ELSE << >>)

\* the list of scans
Sos(cs, ss, se) == [k |-> "SOS", cs |-> cs, td |-> [i \in DOMAIN cs |-> Table(cs[i])],
                    ta |-> [i \in DOMAIN cs |-> Table(cs[i])], ss |-> ss, se |-> se, ah |-> 0, al |-> 0]
NumScans == IF Interleaved THEN 1 ELSE IF c.scans = 0 THEN NC ELSE NC * c.scans
ScanNo(i) ==     \* i = 1..NumScans
  IF Interleaved THEN Sos([j \in 1..NC |-> j], 0, 63)
  ELSE LET comp == << ((i - 1) % NC) + 1 >> IN
       IF c.scans = 0 THEN Sos(comp, 0, 63)
       ELSE IF i <= NC THEN Sos(comp, 0, 0)
       ELSE LET ac == c.scans - 1
                per == 63 \div ac
                s == ((i - 1) \div NC) - 1           \* 0-based AC scan
                a == 1 + s * per
                e == IF s = ac - 1 THEN 64 ELSE a + per
            IN Sos(comp, a, e - 1)

-----------------------------------------------------------------------------
(* Loops over blocks *)
Cols(i) == IF Interleaved THEN CeilDiv(c.w, 8 * Fh)
           ELSE CeilDiv(CeilDiv(c.w, 8), Fh \div Comps[i].h)
Rows(i) == IF Interleaved THEN CeilDiv(c.h, 8 * Fv)
           ELSE CeilDiv(CeilDiv(c.h, 8), Fv \div Comps[i].v)
First == ScanNo(si).cs[1]

\* data units of the MCU at (bx, by), in the order of the loops over components, rows and columns
RECURSIVE UnitsFrom(_)
UnitsFrom(i) ==
  IF i > NC THEN << >>
  ELSE [n \in 1..(Comps[i].h * Comps[i].v) |->
          << i, bx * Comps[i].h + ((n - 1) % Comps[i].h), by * Comps[i].v + ((n - 1) \div Comps[i].h) >>] \o UnitsFrom(i + 1)
Units == IF Interleaved THEN UnitsFrom(1) ELSE << << First, bx, by >> >>

-----------------------------------------------------------------------------
Init ==
  /\ \E jt \in Types, s \in Samplings, m \in Modes, w \in Widths, h \in Heights, r \in Restarts :
       c = [jt |-> jt, samp |-> s, scans |-> m[1], opt |-> m[2], w |-> w, h |-> h, restart |-> r]
  /\ Show => PrintT("CFG " \o ToJson(c))
  /\ pc = "header" /\ hi = 1 /\ si = 1 /\ by = 0 /\ bx = 0 /\ mcu = 0
  /\ togo = c.restart /\ rstno = 0
  /\ st = StreamInit /\ sink = SinkInit /\ sent = 0 /\ bad = {}
  /\ src = SourceInit /\ ask = 0

Failures == IF Faults THEN {-1, Panic} ELSE {}
After(o) == IF o = Panic THEN "panic" ELSE "error"

-----------------------------------------------------------------------------
(* A check of the specification itself: what the encoder hands over is not what arrives.  Alterations that T.81 and *)
(* the properties allow (a repeated table, a table nobody uses, an application segment) are left out.               *)
Perturbed == \E b \in bad : b[1] = "perturbed"
InUse(id) == id = 0 \/ NC > 1
Lossless(it) == it.k \in {"APP", "SCANEND"} \/ (it.k = "DQT" /\ ~InUse(CHOOSE i \in it.ids : TRUE))
Repeatable(it) == it.k \in {"APP", "SCANEND", "DQT", "DHT", "DRI"}
Other(i) == IF i = NC THEN 1 ELSE i + 1
Altered(it) ==
  CASE it.k = "SOF" -> {[it EXCEPT !.sof = 2 - @], [it EXCEPT !.sof = 1], [it EXCEPT !.prec = 12], [it EXCEPT !.w = @ + 1], [it EXCEPT !.h = @ + 1],
                        [it EXCEPT !.w = 0], [it EXCEPT !.comps = SubSeq(@, 1, Len(@) - 1)], [it EXCEPT !.comps = Append(@, @[1])]}
                       \cup {[it EXCEPT !.comps[i].h = @ + 1] : i \in 1..NC} \cup {[it EXCEPT !.comps[i].v = @ + 1] : i \in 1..NC}
                       \cup {[it EXCEPT !.comps[i].q = 3] : i \in 1..NC}
                       \cup (IF NC > 1 THEN {[it EXCEPT !.comps[i].id = @ + 1] : i \in 1..(NC - 1)} ELSE {})
    [] it.k = "DQT" -> IF InUse(CHOOSE i \in it.ids : TRUE) THEN {[it EXCEPT !.ids = {2}]} ELSE {}
    [] it.k = "DHT" -> {[it EXCEPT !.ids = {<< x[1], 3 >> : x \in @}]}
    [] it.k = "DRI" -> {[it EXCEPT !.n = @ + 1], [it EXCEPT !.n = 0]}
    [] it.k = "SOS" -> {[it EXCEPT !.se = IF @ = 63 THEN 62 ELSE @ + 1], [it EXCEPT !.al = 1], [it EXCEPT !.ah = 1]}
                       \cup {[it EXCEPT !.ss = @ + 1]} \cup (IF it.ss > 0 THEN {[it EXCEPT !.ss = @ - 1]} ELSE {})
                       \cup (IF it.ss = 0 THEN {[it EXCEPT !.td[1] = 3]} ELSE {})
                       \cup (IF it.se > 0 THEN {[it EXCEPT !.ta[1] = 3]} ELSE {})
                       \cup (IF NC > 1 /\ Len(it.cs) = 1 THEN {[it EXCEPT !.cs[1] = Other(@)]} ELSE {})
                       \cup (IF Len(it.cs) > 1 THEN {[it EXCEPT !.cs[1] = it.cs[2], !.cs[2] = it.cs[1]], [it EXCEPT !.cs = Tail(@), !.td = Tail(@), !.ta = Tail(@)]} ELSE {})
                       \cup {[it EXCEPT !.cs[1] = 0]}
    [] it.k = "MCU" -> {[it EXCEPT !.units = Tail(@)], [it EXCEPT !.units[1][2] = @ + 1], [it EXCEPT !.units[Len(it.units)][3] = @ + 1]}
                       \cup (IF Len(it.units) > 1 THEN {[it EXCEPT !.units[1] = it.units[2], !.units[2] = it.units[1]]} ELSE {})
    [] it.k = "RST" -> {[it EXCEPT !.m = (@ + 1) % 8], [it EXCEPT !.m = (@ + 7) % 8]}
    [] OTHER -> {}
Arrives(it) ==
  {<< it >>} \cup
  (IF ~Perturb \/ Perturbed THEN {} ELSE
     (IF Lossless(it) THEN {} ELSE {<< >>}) \cup (IF Repeatable(it) THEN {} ELSE {<< it, it >>})
     \cup {<< x >> : x \in Altered(it)})
AcceptAll(its) == FoldLeft(LAMBDA a, x : LET r == Accept(a.st, x, Wc) IN [st |-> r.st, bad |-> a.bad \cup r.bad], [st |-> st, bad |-> {}], its)

\* hand an item to the sink: delivered, or the sink fails and the encoder returns the error
Deliver(it, next) ==
  \/ \E its \in Arrives(it) :
     LET r == AcceptAll(its) IN
     /\ st' = r.st /\ bad' = bad \cup r.bad \cup (IF its = << it >> THEN {} ELSE {<< "perturbed", its >>})
     /\ sink' = SinkStep(sink, [kind |-> 0, n |-> 1, out |-> 1])
     /\ sent' = sent + 1 /\ UNCHANGED << src, ask >>
     /\ next
  \/ \E o \in Failures :
     /\ sink' = SinkStep(sink, [kind |-> 0, n |-> 1, out |-> o])
     /\ pc' = After(o) /\ UNCHANGED << c, hi, si, by, bx, mcu, togo, rstno, st, sent, bad, src, ask >>

\* ask the image for its rows: all of them before the frame header, or those of the next row of MCUs
RowNo == LET y == ask + (IF Interleaved THEN by * 8 * Fv ELSE 0) IN IF y < c.h THEN y ELSE c.h - 1
RowsAsked == IF Interleaved THEN 8 * Fv ELSE CeilDiv(c.h, 8 * Fv) * 8 * Fv
FetchStep ==
  /\ pc = "fetch"
  /\ \E o \in {0} \cup (IF Faults THEN {Panic} ELSE {}) :
       /\ src' = SourceStep(src, RowNo, o)
       /\ bad' = bad \cup Complain(MayAsk(src, RowNo, c.h), "C14", "row out of order")
       /\ IF o = Panic THEN pc' = "panic" /\ UNCHANGED ask
          ELSE IF ask + 1 = RowsAsked THEN pc' = (IF Interleaved THEN "blocks" ELSE "header") /\ ask' = 0
          ELSE ask' = ask + 1 /\ UNCHANGED pc
  /\ UNCHANGED << c, hi, si, by, bx, mcu, togo, rstno, st, sink, sent >>

HeaderStep ==
  /\ pc = "header"
  /\ Deliver(Header[hi],
       /\ hi' = hi + 1
       /\ pc' = IF hi = Len(Header) THEN "sos" ELSE IF ~Interleaved /\ Header[hi + 1].k = "SOF" THEN "fetch" ELSE "header"
       /\ UNCHANGED << c, si, by, bx, mcu, togo, rstno >>)

SosStep ==
  /\ pc = "sos"
  /\ Deliver(ScanNo(si),
       /\ pc' = (IF Interleaved THEN "fetch" ELSE "blocks") /\ by' = 0 /\ bx' = 0 /\ mcu' = 0
       /\ togo' = c.restart /\ rstno' = 0
       /\ UNCHANGED << c, hi, si >>)

\* a restart marker in front of the block
RstStep ==
  /\ pc = "blocks" /\ c.restart > 0 /\ togo = 0
  /\ Deliver([k |-> "RST", m |-> rstno % 8],
       /\ pc' = "block"
       /\ UNCHANGED << c, hi, si, by, bx, mcu, togo, rstno >>)

BlockStep ==
  /\ pc = "block" \/ (pc = "blocks" /\ ~(c.restart > 0 /\ togo = 0))
  /\ Deliver([k |-> "MCU", units |-> Units],
       LET t == IF togo = 0 THEN c.restart ELSE togo
           last == bx = Cols(First) - 1 /\ by = Rows(First) - 1
       IN /\ togo' = IF c.restart > 0 THEN t - 1 ELSE togo
          /\ rstno' = IF c.restart > 0 /\ togo = 0 THEN (rstno + 1) % 8 ELSE rstno
          /\ mcu' = mcu + 1
          /\ bx' = IF bx = Cols(First) - 1 THEN 0 ELSE bx + 1
          /\ by' = IF bx = Cols(First) - 1 THEN by + 1 ELSE by
          /\ pc' = IF last THEN "endscan" ELSE IF Interleaved /\ bx = Cols(First) - 1 THEN "fetch" ELSE "blocks"
          /\ UNCHANGED << c, hi, si >>)

EndScan ==
  /\ pc = "endscan"
  /\ Deliver([k |-> "SCANEND"],
       /\ si' = si + 1
       /\ pc' = IF si = NumScans THEN "eoi" ELSE "sos"
       /\ UNCHANGED << c, hi, by, bx, mcu, togo, rstno >>)

EoiStep ==
  /\ pc = "eoi"
  /\ Deliver([k |-> "EOI"], pc' = "flush" /\ UNCHANGED << c, hi, si, by, bx, mcu, togo, rstno >>)

Flush ==
  /\ pc = "flush"
  /\ \E o \in {0} \cup Failures :
       /\ sink' = SinkStep(sink, [kind |-> 1, n |-> 0, out |-> o])
       /\ pc' = IF o = 0 THEN "ok" ELSE After(o)
  /\ UNCHANGED << c, hi, si, by, bx, mcu, togo, rstno, st, sent, bad, src, ask >>

Next == FetchStep \/ HeaderStep \/ SosStep \/ RstStep \/ BlockStep \/ EndScan \/ EoiStep \/ Flush
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* C01, C02, C04, C07, C17: the automaton never complains
NoComplaint == ~Perturbed => bad = {}
\* the automaton notices everything that is not as it must be
AllNoticed == (pc = "ok" /\ Perturbed) => Cardinality(bad) > 1 \/ st.ph # "end"
\* where the optimizer's statistics pass resets the DC prediction (every c.restart blocks of the component)
\* the writer puts a restart marker, and nowhere else
ResetOnSchedule == /\ pc = "block" => mcu % c.restart = 0 /\ mcu > 0
                   /\ (pc = "blocks" /\ c.restart > 0 /\ mcu > 0 /\ mcu % c.restart = 0) => togo = 0
\* C11: Ok means complete and flushed; an error means that the sink failed and nothing followed
OkComplete == pc = "ok" => st.ph = "end" /\ sink.flushed /\ ~sink.failed
ErrorReported == (pc = "error") = (sink.failed /\ sink.why # "panic")
PanicPropagated == (pc = "panic") = (src.failed \/ sink.why = "panic")
NothingAfterFailure == (sink.failed \/ src.failed) => ~ENABLED Next
\* C14: no data unit is delivered before the rows it is made of; in the end the image was asked for all of them
RowsBeforeUnits == pc = "blocks" => \A n \in DOMAIN Units : LET u == Units[n] IN
                     src.rows >= RowsFor(u[3], Comps[u[1]].v, Fv, c.h)
AllRows == pc = "ok" => src.rows = c.h
Prefix == sent = sink.got
\* C16: every run ends
Terminates == <>(pc \in {"ok", "error", "panic"})

View == << c, pc, hi, si, bx, by, mcu, togo, rstno, ask, sink.failed, src.failed >>
=============================================================================
