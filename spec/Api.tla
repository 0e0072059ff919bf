-------------------------------- MODULE Api ---------------------------------
(* The encoder object as its user sees it: configuration state, the effect and *)
(* result of every call, and what the getters report.  One operator Apply per  *)
(* call; used by the model MC_Api and by the trace specification.              *)
EXTENDS JpegMath, TLC

Factors(n) ==
  CASE n \in {"F_1_1", "R_4_4_4"} -> << 1, 1 >>
    [] n \in {"F_2_1", "R_4_2_2"} -> << 2, 1 >>
    [] n \in {"F_1_2", "R_4_4_0"} -> << 1, 2 >>
    [] n \in {"F_2_2", "R_4_2_0"} -> << 2, 2 >>
    [] n \in {"F_4_1", "R_4_1_1"} -> << 4, 1 >>
    [] n \in {"F_4_2", "R_4_1_0"} -> << 4, 2 >>
    [] n \in {"F_1_4", "R_4_4_1"} -> << 1, 4 >>
    [] n \in {"F_2_4", "R_4_2_1"} -> << 2, 4 >>
FNames == {"F_1_1", "F_2_1", "F_1_2", "F_2_2", "F_4_1", "F_4_2", "F_1_4", "F_2_4"}
RNames == {"R_4_4_4", "R_4_2_2", "R_4_4_0", "R_4_2_0", "R_4_1_1", "R_4_1_0", "R_4_4_1", "R_4_2_1"}
SamplingNames == FNames \cup RNames
\* SamplingFactor::from_factors
FromFactors(h, v) == LET S == {n \in FNames : Factors(n) = << h, v >>}
                     IN IF S = {} THEN "None" ELSE CHOOSE n \in S : TRUE

MaxSegment  == 65533
IccChunk    == 65519
MaxIcc      == 255 * IccChunk      \* 16,707,345

\* a payload is [data |-> bytes] or generated: [len, seed]; byte i (0-based)
GenByte(seed, i) == (seed + 31 * i + 7 * (i \div 251)) % 256
PLen(o)  == IF "data" \in DOMAIN o THEN Len(o.data) ELSE o.len
PByte(o, i) == IF "data" \in DOMAIN o THEN o.data[i + 1] ELSE GenByte(o.seed, i)

DefaultTable == [k |-> "Default", v |-> << >>]

\* the state of a fresh encoder
NewCfg(q) == [ q |-> q, density |-> << 0, 0, 0 >>,
               sampling |-> IF q < 90 THEN "F_2_2" ELSE "F_1_1",
               ql |-> DefaultTable, qc |-> DefaultTable,
               scans |-> 0, restart |-> 0, optimize |-> FALSE,
               segs |-> << >> ]

Ok == [k |-> "ok", e |-> "", a |-> 0, b |-> 0]
ErrR(e, a, b) == [k |-> "err", e |-> e, a |-> a, b |-> b]
PanicR == [k |-> "panic", e |-> "", a |-> 0, b |-> 0]

\* user segments: [nr, icc: 0 or chunk number, n: chunks, o: payload source, from, len]
AppSeg(o) == [nr |-> o.nr, icc |-> 0, n |-> 0, o |-> o, from |-> 0, len |-> PLen(o)]
IccSegs(o) ==
  LET n == CeilDiv(PLen(o), IccChunk) IN
  [i \in 1..n |-> [nr |-> 2, icc |-> i, n |-> n, o |-> o, from |-> (i - 1) * IccChunk,
                   len |-> Min2(IccChunk, PLen(o) - (i - 1) * IccChunk)]]
IccHead == << 73, 67, 67, 95, 80, 82, 79, 70, 73, 76, 69, 0 >>   \* "ICC_PROFILE\0"
SegLen(s) == IF s.icc = 0 THEN s.len ELSE s.len + 14
SegByte(s, i) ==     \* i-th byte (0-based) of the segment's payload
  IF s.icc = 0 THEN PByte(s.o, i)
  ELSE IF i < 12 THEN IccHead[i + 1]
  ELSE IF i = 12 THEN s.icc
  ELSE IF i = 13 THEN s.n
  ELSE PByte(s.o, s.from + i - 14)

\* effect of a configuration call: << new state, result >>
Apply(c, o) ==
  CASE o.op = "density"     -> << [c EXCEPT !.density = IF o.unit = 0 THEN << 0, 0, 0 >> ELSE << o.unit, o.x, o.y >>], Ok >>
    [] o.op = "sampling"    -> << [c EXCEPT !.sampling = o.name], Ok >>
    [] o.op = "factors"     -> << IF FromFactors(o.h, o.v) = "None" THEN c
                                  ELSE [c EXCEPT !.sampling = FromFactors(o.h, o.v)], Ok >>
    [] o.op = "qtables"     -> << [c EXCEPT !.ql = o.luma, !.qc = o.chroma], Ok >>
    [] o.op = "progressive" -> << [c EXCEPT !.scans = IF o.on THEN 4 ELSE 0], Ok >>
    [] o.op = "scans"       -> IF o.n \in 2..64 THEN << [c EXCEPT !.scans = o.n], Ok >> ELSE << c, PanicR >>
    [] o.op = "restart"     -> << [c EXCEPT !.restart = o.n], Ok >>
    [] o.op = "optimize"    -> << [c EXCEPT !.optimize = o.on], Ok >>
    [] o.op = "app"         -> IF o.nr \notin 1..15 THEN << c, ErrR("InvalidAppSegment", o.nr, 0) >>
                               ELSE IF PLen(o) > MaxSegment THEN << c, ErrR("AppSegmentTooLarge", PLen(o), 0) >>
                               ELSE << [c EXCEPT !.segs = Append(@, AppSeg(o))], Ok >>
    [] o.op = "icc"         -> IF PLen(o) > MaxIcc THEN << c, ErrR("IccTooLarge", PLen(o), 0) >>
                               ELSE << [c EXCEPT !.segs = @ \o IccSegs(o)], Ok >>

\* what the getters show
QEq(t, g) == t.k = g.k /\ (t.k = "Custom" => Len(g.v) = 64 /\ \A i \in 1..64 : g.v[i] = t.v[((i - 1) % Len(t.v)) + 1])
GettersOK(c, g) ==
  /\ g.density = c.density
  /\ g.sampling = c.sampling
  /\ QEq(c.ql, g.ql)
  /\ QEq(c.qc, g.qc)
  /\ g.scans = c.scans
  /\ g.restart = c.restart
  /\ g.optimize = c.optimize

\* products can exceed TLC's integers: everything from 2*10^9 on is one value (as in the harness)
Cap == 2000000000
CapMul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > Cap \div b THEN Cap ELSE a * b

\* result the encode call must have with a sink that accepts everything
EncodeResult(o) ==
  LET need == CapMul(CapMul(o.w, o.h), o.bpp) IN
  IF o.via = "slice" /\ o.pxlen < need THEN ErrR("BadImageData", o.pxlen, need)
  ELSE IF o.w = 0 \/ o.h = 0 THEN ErrR("ZeroImageDimensions", o.w, o.h)
  ELSE Ok
SameResult(r, x) == r.k = x.k /\ r.e = x.e /\ r.a = x.a /\ r.b = x.b
=============================================================================
