---------------------------- MODULE StreamTrace -----------------------------
(* Trace specification: every recorded run of the real encoder must be a       *)
(* behaviour of Api (configuration calls, results, getters) followed by a      *)
(* stream that JpegStream accepts for the final configuration and whose bytes, *)
(* decoded here, carry the quantized transform of the recorded picture.        *)
(*                                                                             *)
(* One behaviour per recorded trace (tid); one step per API call, per marker   *)
(* segment, per MCU, per restart marker.  Nothing is left open by the log, so  *)
(* every behaviour is a chain; complaints are collected in `bad` and the       *)
(* invariant for property Check is that none of them concerns it.              *)
EXTENDS Api, Color, Dct, Quant, JpegStream, JpegBytes, Json, IOUtils, SequencesExt

CONSTANT Check     \* the property this run decides
CONSTANT Decode    \* TRUE: decode the entropy-coded data; FALSE: only walk over it
CONSTANT NeedExp   \* TRUE: compute the expected coefficients

Trace == ndJsonDeserialize(IOEnv.TRACE)
Hi == CosHi
Lo == CosLo

VARIABLES tid, ph, ei, cfg, w, st, tb, pos, bit, pred, exp, hist, aux, bad
vars == << tid, ph, ei, cfg, w, st, tb, pos, bit, pred, exp, hist, aux, bad >>

T == Trace[tid]
E == T.ev[Len(T.ev)]          \* the encode event
Out == E.out
N == Len(E.out)

NoTables == [q |-> TLCEval([i \in 0..3 |-> << >>]), rc |-> TLCEval([i \in 0..3 |-> << >>]),
             dc |-> TLCEval([i \in 0..3 |-> << >>]), ac |-> TLCEval([i \in 0..3 |-> << >>])]
NoHist == TLCEval([x \in (0..1) \X (0..3) |-> << >>])

Init ==
  /\ tid \in 1..Len(Trace)
  /\ ph = "api" /\ ei = 1
  /\ cfg = NewCfg(0) /\ w = << >>
  /\ st = StreamInit /\ tb = NoTables
  /\ pos = 0 /\ bit = 0 /\ pred = << >> /\ exp = << >> /\ hist = NoHist
  /\ aux = [next |-> 1, adobe |-> FALSE, mis |-> FALSE, td |-> << >>, ta |-> << >>, units |-> 0]
  /\ bad = {}

Same(S) == UNCHANGED S

-----------------------------------------------------------------------------
(* Configuration calls *)
WantOf(c, e) ==
  LET jt == JpegType(e.ct) IN
  [ w |-> e.w, h |-> e.h, jt |-> jt, comps |-> ExpComps(jt, Factors(c.sampling)),
    prog |-> c.scans > 0, scans |-> c.scans, restart |-> c.restart,
    ql |-> QTable(c.ql, c.q, TRUE), qc |-> QTable(c.qc, c.q, FALSE) ]

ApiCall ==
  /\ ph = "api" /\ ei <= Len(T.ev) /\ T.ev[ei].op # "encode"
  /\ LET o == T.ev[ei]
         r == IF o.op = "new" THEN << NewCfg(o.q), Ok >> ELSE Apply(cfg, o)
         same == SameResult(o.res, r[2])
         refusal == r[2].k # "ok"
     IN /\ cfg' = r[1]
        /\ bad' = bad
             \cup Complain(same \/ ~refusal, "C10", "invalid call not refused with the documented error: " \o o.op)
             \cup Complain(same \/ refusal \/ o.op \notin {"app", "icc"}, "C09", "valid segment refused")
             \cup Complain(same \/ refusal, "C16", "valid configuration call failed: " \o o.op)
             \cup Complain(same \/ refusal, "C10", "valid call refused: " \o o.op)
             \cup (IF o.res.k # r[2].k THEN {} ELSE
                   Complain(GettersOK(r[1], o.st), IF refusal THEN "C10" ELSE "C13",
                            "getters do not show the accepted settings after " \o o.op))
        /\ ph' = IF same THEN "api" ELSE "dead"
        /\ ei' = ei + 1
  /\ Same(<< tid, w, st, tb, pos, bit, pred, exp, hist, aux >>)

\* these promise something about the stream of every valid request: without a stream the promise is broken
\* (in a build with debug assertions a panic also means that a code was needed but missing, C02 and C06)
ForEvery == {"C02", "C03", "C04", "C06", "C07", "C08", "C09", "C13", "C17"}

EncodeCall ==
  /\ ph = "api" /\ ei <= Len(T.ev) /\ T.ev[ei].op = "encode"
  /\ LET x == EncodeResult(E)
         same == SameResult(E.res, x)
     IN IF x.k # "ok"
        THEN /\ bad' = bad
                  \cup Complain(same, "C10", "invalid image not refused with the documented error")
                  \cup Complain(E.outlen = 0 /\ E.calls = << >>, "C10", "refused image still wrote to the sink")
             /\ ph' = "done"
             /\ Same(<< w, exp >>)
        ELSE /\ bad' = bad
                  \cup Complain(same, "C16", "encoding a valid image failed: " \o E.res.k \o " " \o E.res.m \o E.res.e)
                  \cup Complain(same \/ E.res.k = "panic", "C10", "valid image refused: " \o E.res.k)
                  \cup Complain(same \/ Check \notin ForEvery, Check, "no stream for a valid image: " \o E.res.k \o " " \o E.res.m \o E.res.e)
             /\ ph' = IF ~same THEN "dead" ELSE IF E.outmode = "none" THEN "done"
                      ELSE IF E.outmode \in {"segs", "big"} THEN "segs" ELSE "seg"
             /\ w' = IF same THEN WantOf(cfg, E) ELSE << >>
             /\ exp' = TLCEval([c \in 1..NumComps(JpegType(E.ct)) |-> << >>])
  /\ pos' = 1
  /\ ei' = ei + 1
  /\ Same(<< tid, cfg, st, tb, bit, pred, hist, aux >>)

-----------------------------------------------------------------------------
(* Marker segments *)
AdobeBytes(t) == << 65, 100, 111, 98, 101, 0, 0, 0, 0, 0, 0, t >>
WantAdobe == w.jt \in {"Cmyk", "Ycck"}
AdobeHere(nr, a, len) ==
  nr = 14 /\ len = 12 /\ SubSeq(Out, a, a + 11) = AdobeBytes(IF w.jt = "Cmyk" THEN 0 ELSE 2)
\* the next user segment is exactly this one
UserHere(nr, a, len) ==
  /\ aux.next <= Len(cfg.segs)
  /\ LET s == cfg.segs[aux.next] IN
       /\ s.nr = nr /\ SegLen(s) = len
       /\ \A i \in 0..(Min2(len, N - a + 1) - 1) : Out[a + i] = SegByte(s, i)

JfifOK(a, len) ==
  /\ len = 14
  /\ SubSeq(Out, a, a + 4) = << 74, 70, 73, 70, 0 >>
  /\ Out[a + 5] = 1 /\ Out[a + 6] \in 0..2        \* JFIF 1.00, 1.01, 1.02
  /\ Out[a + 12] = 0 /\ Out[a + 13] = 0
DensityOK(a) ==
  LET d == cfg.density IN
  /\ Out[a + 7] = d[1]
  /\ d[1] # 0 => U16(Out, a + 8) = d[2] /\ U16(Out, a + 10) = d[3]
  /\ d[1] = 0 => U16(Out, a + 8) > 0 /\ U16(Out, a + 8) = U16(Out, a + 10)

QId(c) == st.frame.comps[c].q
\* the component has a usable quantization table
HasQ(c) == QId(c) \in DOMAIN tb.q /\ Len(tb.q[QId(c)]) = 64

\* the table a component must use (zigzag order)
WantQ(c) == LET t == IF w.comps[c].luma THEN w.ql ELSE w.qc IN [i \in 1..64 |-> t[ZZ[i] + 1]]

HuffComplaints(ts) ==
       Complain(\A i \in DOMAIN ts : ValidTable(ts[i].bits, ts[i].vals, ts[i].cls = 0), "C06", "invalid Huffman table")

\* Symbols used with a table against the table: sufficiency is decoding itself, here economy
Economy(t, f) ==
     IF ~cfg.optimize \/ Check # "C06" \/ t = << >> \/ f = << >> THEN {}
     ELSE LET used == {s \in 0..255 : f[s] > 0} IN
             Complain(ToSet(t.vals) = used, "C06", "optimized table does not hold exactly the symbols used")
        \cup (IF ToSet(t.vals) # used THEN {} ELSE
              Complain(TotalLen(t.bits, t.vals, f) <= K2Cost(f, 16, 256), "C06", "optimized table costs more than the Annex K.2 code"))
EconomyComplaints(cls, id) == Economy(IF cls = 0 THEN tb.dc[id] ELSE tb.ac[id], hist[<< cls, id >>])

AllEconomy == UNION {EconomyComplaints(cls, id) : cls \in 0..1, id \in 0..3}

Step(st2, bd) == st' = st2 /\ bad' = bad \cup bd
Dead(tags, text) == /\ ph' = "dead"
                    /\ bad' = bad \cup {<< t, text >> : t \in tags}
                    /\ Same(<< tid, ei, cfg, w, st, tb, pos, bit, pred, exp, hist, aux >>)

\* tags of a failure inside entropy-coded data
CodingTags == {"C02", "C03", "C05", "C06", "C07", "C15"}

MarkerAt(q) == q + 1 <= N /\ Out[q] = 255

\* head mode ends at the first scan; the last two bytes were logged separately
TailOK == E.tail = << 255, 217 >>

SegStep ==
  /\ ph = "seg"
  /\ IF pos = 1 /\ ~TailOK THEN Dead({"C01"}, "stream does not end with EOI")
     ELSE IF ~MarkerAt(pos) THEN Dead({"C01"}, "no marker where one must be")
     ELSE LET m == Out[pos + 1] IN
     CASE m = 216 ->
            LET r == Accept(st, [k |-> "SOI"], w) IN
            /\ Step(r.st, r.bad) /\ pos' = pos + 2 /\ ph' = "seg"
            /\ Same(<< tid, ei, cfg, w, tb, bit, pred, exp, hist, aux >>)
       [] m = 217 ->
            LET r == Accept(st, [k |-> "EOI"], w) IN
            /\ Step(r.st, r.bad
                    \cup Complain(pos + 1 = E.outlen, "C01", "data after EOI")
                    \cup Complain(aux.next > Len(cfg.segs), "C09", "segments missing")
                    \cup Complain(aux.adobe = WantAdobe, "C09", "Adobe segment")
                    \cup AllEconomy)
            /\ ph' = "done"
            /\ Same(<< tid, ei, cfg, w, tb, pos, bit, pred, exp, hist, aux >>)
       [] m \in 208..215 -> Dead({"C01", "C04"}, "restart marker outside of a scan")
       [] ~SegFits(Out, pos, N) /\ E.outmode = "full" -> Dead({"C01"}, "segment length")
       [] ~SegFits(Out, pos, N) /\ E.outmode = "head" -> \* log ends inside a segment
            /\ ph' = "done" /\ Same(<< tid, ei, cfg, w, st, tb, pos, bit, pred, exp, hist, aux, bad >>)
       [] m = 224 ->
            LET r == Accept(st, [k |-> "APP0"], w)
                ok == JfifOK(pos + 4, SegLen2(Out, pos)) IN
            /\ Step(r.st, r.bad \cup Complain(ok, "C01", "malformed JFIF header")
                                \cup Complain(~ok \/ DensityOK(pos + 4), "C09", "density"))
            /\ pos' = SegEnd(Out, pos)
            /\ Same(<< tid, ph, ei, cfg, w, tb, bit, pred, exp, hist, aux >>)
       [] m \in 225..239 ->
            LET nr == m - 224
                len == SegLen2(Out, pos)
                usr == UserHere(nr, pos + 4, len)
                ado == WantAdobe /\ ~aux.adobe /\ AdobeHere(nr, pos + 4, len)
                r == Accept(st, [k |-> "APP"], w) IN
            /\ Step(r.st, r.bad \cup Complain(usr \/ ado, "C09", "application segment differs from what was added"))
            /\ aux' = IF usr THEN [aux EXCEPT !.next = @ + 1] ELSE [aux EXCEPT !.adobe = ado \/ @]
            /\ pos' = SegEnd(Out, pos)
            /\ Same(<< tid, ph, ei, cfg, w, tb, bit, pred, exp, hist >>)
       [] m = 254 ->
            LET r == Accept(st, [k |-> "COM"], w) IN
            /\ Step(r.st, r.bad) /\ pos' = SegEnd(Out, pos)
            /\ Same(<< tid, ph, ei, cfg, w, tb, bit, pred, exp, hist, aux >>)
       [] m = 219 ->
            IF ~DqtFits(Out, pos) THEN Dead({"C01", "C08"}, "malformed quantization segment")
            ELSE \E ts \in {DqtParse(Out, pos)} :
                 LET r == Accept(st, [k |-> "DQT", ids |-> {ts[i].id : i \in DOMAIN ts}], w) IN
                 /\ Step(r.st, r.bad \cup Complain(\A i \in DOMAIN ts : \A j \in 1..64 : ts[i].v[j] > 0, "C01", "zero quantization value"))
                 /\ tb' = IF r.bad # {} \/ \E i \in DOMAIN ts : \E j \in 1..64 : ts[i].v[j] = 0 THEN tb
                          ELSE [tb EXCEPT
                            !.q = TLCEval([id \in 0..3 |-> LET S == {i \in DOMAIN ts : ts[i].id = id} IN
                                      IF S = {} THEN @[id] ELSE ts[CHOOSE i \in S : TRUE].v]),
                            !.rc = TLCEval([id \in 0..3 |-> LET S == {i \in DOMAIN ts : ts[i].id = id} IN
                                      IF S = {} THEN @[id] ELSE TLCEval([j \in 1..64 |-> Recip(8 * ts[CHOOSE i \in S : TRUE].v[j])])])]
                 /\ pos' = SegEnd(Out, pos)
                 /\ Same(<< tid, ph, ei, cfg, w, bit, pred, exp, hist, aux >>)
       [] m = 196 ->
            \E d \in {DhtParse(Out, pos)} :
            LET ts == d.t
                r == Accept(st, [k |-> "DHT", ids |-> {<< ts[i].cls, ts[i].id >> : i \in DOMAIN ts}], w)
                hb == HuffComplaints(ts)
                pick(cls, id, old) == LET S == {i \in DOMAIN ts : ts[i].cls = cls /\ ts[i].id = id} IN
                                      IF S = {} THEN old ELSE LET t == ts[CHOOSE i \in S : TRUE] IN TLCEval(DecTable(t.bits, t.vals))
            IN IF ~d.ok \/ Len(ts) = 0 THEN Dead({"C01", "C06"}, "malformed Huffman segment")
               ELSE IF hb # {} THEN Dead({"C01", "C06", "C02"}, "invalid Huffman table")
               ELSE IF r.bad # {} THEN Dead({"C01"}, "Huffman table placement")
               ELSE /\ Step(r.st, r.bad \cup UNION {EconomyComplaints(ts[i].cls, ts[i].id) : i \in DOMAIN ts})
                    /\ tb' = [tb EXCEPT !.dc = TLCEval([id \in 0..3 |-> pick(0, id, @[id])]),
                                        !.ac = TLCEval([id \in 0..3 |-> pick(1, id, @[id])])]
                    /\ hist' = TLCEval([x \in DOMAIN hist |->
                                 IF \E i \in DOMAIN ts : << ts[i].cls, ts[i].id >> = x
                                 THEN TLCEval([s \in 0..256 |-> IF s = 256 THEN 1 ELSE 0]) ELSE hist[x]])
                    /\ pos' = SegEnd(Out, pos)
                    /\ Same(<< tid, ph, ei, cfg, w, bit, pred, exp, aux >>)
       [] m = 221 ->
            IF SegLen2(Out, pos) # 2 THEN Dead({"C01"}, "malformed DRI")
            ELSE LET r == Accept(st, [k |-> "DRI", n |-> U16(Out, pos + 4)], w) IN
                 /\ Step(r.st, r.bad) /\ pos' = SegEnd(Out, pos)
                 /\ Same(<< tid, ph, ei, cfg, w, tb, bit, pred, exp, hist, aux >>)
       [] m \in {192, 193, 194} ->
            IF ~SofFits(Out, pos) THEN Dead({"C01"}, "malformed frame header")
            ELSE LET it == SofParse(Out, pos)
                     r == Accept(st, it, w) IN
                 /\ Step(r.st, r.bad) /\ pos' = SegEnd(Out, pos)
                 /\ ph' = IF \A c \in DOMAIN it.comps : it.comps[c].h \in 1..4 /\ it.comps[c].v \in 1..4 THEN "seg" ELSE "dead"
                 /\ Same(<< tid, ei, cfg, w, tb, bit, pred, exp, hist, aux >>)
       [] m = 218 ->
            IF ~SosFits(Out, pos) THEN Dead({"C01"}, "malformed scan header")
            ELSE LET it == SosParse(Out, pos, st.frame)
                     r == Accept(st, it, w)
                     hard == \E b \in r.bad : b[1] = "C01"
                     qok == hard \/ ~FrameMatches(st.frame, w) \/
                            \A i \in DOMAIN it.cs : HasQ(it.cs[i]) /\ tb.q[QId(it.cs[i])] = WantQ(it.cs[i])
                 IN /\ Step(r.st, r.bad \cup Complain(qok, "C08", "quantization table differs from the configured one"))
                    /\ pos' = SegEnd(Out, pos) /\ bit' = 0
                    /\ pred' = TLCEval([c \in DOMAIN st.frame.comps |-> 0])
                    /\ aux' = [aux EXCEPT !.mis = FALSE,
                                 !.td = IF Len(it.cs) = 0 THEN << >> ELSE TLCEval([c \in DOMAIN st.frame.comps |-> LET S == {i \in DOMAIN it.cs : it.cs[i] = c} IN IF S = {} THEN 0 ELSE it.td[CHOOSE i \in S : TRUE]]),
                                 !.ta = IF Len(it.cs) = 0 THEN << >> ELSE TLCEval([c \in DOMAIN st.frame.comps |-> LET S == {i \in DOMAIN it.cs : it.cs[i] = c} IN IF S = {} THEN 0 ELSE it.ta[CHOOSE i \in S : TRUE]])]
                    /\ ph' = IF hard THEN "dead"
                             ELSE IF E.outmode = "head" THEN "headend"
                             ELSE IF Decode THEN "scan" ELSE "skip"
                    /\ Same(<< tid, ei, cfg, w, tb, exp, hist >>)
       [] OTHER -> Dead({"C01"}, "unexpected marker")

\* Symbol statistics of a picture that was constructed from a plan: blocks of coefficients << index, value, .. >>
\* in one sequential scan, each repeated n times; index 0 is the DC coefficient
RECURSIVE PlanSyms(_, _, _, _)
PlanSyms(b, i, prev, acc) ==
  IF i > Len(b) THEN (IF prev < 63 THEN Append(acc, 0) ELSE acc)
  ELSE LET run == b[i] - prev - 1
           z == [j \in 1..(run \div 16) |-> 240]
       IN PlanSyms(b, i + 2, b[i], Append(acc \o z, (run % 16) * 16 + Category(b[i + 1])))
PlanDc(x) == IF x.b = << >> THEN 0 ELSE IF x.b[1] = 0 THEN x.b[2] ELSE 0
PlanHist(plan) ==
  FoldLeft(LAMBDA h, x :
             FoldLeft(LAMBDA g, y : [g EXCEPT ![y] = @ + x.n], h, PlanSyms(x.b, IF PlanDc(x) = 0 /\ (x.b = << >> \/ x.b[1] # 0) THEN 1 ELSE 3, 0, << >>)),
           [s \in 0..256 |-> IF s = 256 THEN 1 ELSE 0], plan)
\* DC differences: the prediction restarts from zero at every multiple of the restart interval
PlanDcHist(plan, ri) ==
  FoldLeft(LAMBDA a, x :
             LET d == PlanDc(x)
                 to == a.p + x.n
                 below(n) == IF ri = 0 THEN (IF n = 0 THEN 0 ELSE 1) ELSE (n + ri - 1) \div ri   \* restarts before position n
                 resets == below(to) - below(a.p)
                 steps == IF (IF ri = 0 THEN a.p = 0 ELSE a.p % ri = 0) THEN 0 ELSE 1
                 h1 == [a.h EXCEPT ![Category(d)] = @ + resets]
                 h2 == [h1 EXCEPT ![Category(d - a.v)] = @ + steps]
             IN [p |-> to, v |-> d, h |-> [h2 EXCEPT ![0] = @ + x.n - resets - steps]],
           [p |-> 0, v |-> 0, h |-> [s \in 0..256 |-> IF s = 256 THEN 1 ELSE 0]], plan).h
PlanEconomy ==
  IF "plan" \notin DOMAIN T \/ Check # "C06" THEN {}
  ELSE Economy(tb.ac[0], TLCEval(PlanHist(T.plan)))
  \cup Economy(tb.dc[0], TLCEval(PlanDcHist(T.plan, cfg.restart)))

\* a stream too long to be logged was checked up to its first scan
HeadEnd ==
  /\ ph = "headend"
  /\ bad' = bad \cup Complain(aux.next > Len(cfg.segs), "C09", "segments missing")
                \cup Complain(aux.adobe = WantAdobe, "C09", "Adobe segment")
                \cup PlanEconomy
  /\ ph' = "done"
  /\ Same(<< tid, ei, cfg, w, st, tb, pos, bit, pred, exp, hist, aux >>)

\* only the leading segments were logged, summarised (very long ICC profiles)
SegsStep ==
  /\ ph = "segs"
  /\ LET L == SelectSeq(E.segs, LAMBDA s : s.m \in 225..239)
         A == IF WantAdobe THEN Tail(L) ELSE L
         ok == /\ Len(A) = Len(cfg.segs)
               /\ WantAdobe => Len(L) > 0 /\ L[1].m = 238 /\ L[1].len = 14
               /\ \A i \in DOMAIN A :
                    LET s == cfg.segs[i] IN
                    /\ A[i].m = 224 + s.nr
                    /\ A[i].len = SegLen(s) + 2
                    /\ \A j \in 1..Min2(16, SegLen(s)) : A[i].head[j] = SegByte(s, j - 1)
                    /\ s.icc # 0 => A[i].from = s.from /\ A[i].to = s.from + s.len
     IN bad' = bad \cup Complain(ok, "C09", "segments of a long profile") \cup Complain(TailOK, "C01", "no EOI")
                  \cup Complain(E.outmode = "segs", "C01", "output of an impossible size")
  /\ ph' = "done"
  /\ Same(<< tid, ei, cfg, w, st, tb, pos, bit, pred, exp, hist, aux >>)

-----------------------------------------------------------------------------
(* Entropy-coded data *)

\* expected quantized coefficients of a data unit, zigzag order
Samples(c, bx, by) ==
  LET f  == st.frame
      sx == TLCEval([i \in 1..8 |-> SampleX(f, c, bx, i - 1)])
      sy == TLCEval([i \in 1..8 |-> SampleY(f, c, by, i - 1)])
      ct == E.ct
      px == E.px
      bp == E.bpp
      wd == E.w
  IN TLCEval([n \in 1..64 |->
        Component(ct, px, (sy[((n - 1) \div 8) + 1] * wd + sx[((n - 1) % 8) + 1]) * bp, c) - 128])

ExpUnit(c, s) ==
  LET cols == FdctCols(s)
      rc == tb.rc[QId(c)]
  IN TLCEval([i \in 1..64 |-> QuantizeR(cols[(ZZ[i] % 8) + 1][(ZZ[i] \div 8) + 1], rc[i])])

\* decoded coefficients r (<< index, value, symbol >>) against the expected ones
UnitMatches(r, x, ss, se) ==
  /\ \A n \in 1..Len(r) : r[n][1] < 0 \/ x[r[n][1] + 1] = r[n][2]
  /\ LET nz == Cardinality({i \in ss..se : x[i + 1] # 0})
         got == Cardinality({n \in 1..Len(r) : r[n][1] >= 0 /\ r[n][2] # 0})
     IN nz = got

\* C15: q * c against the definition.  All in units of 2^-19; tolerance 2/3 q + 1/4 (+ 0.005 for
\* this evaluation of the definition), and 4/5 for q = 1; MC_Dct shows that no block exceeds them.
ErrorBoundOK(c, s, r) ==
  LET X == TrueDct(s, Hi, Lo)
      q == tb.q[QId(c)]
      v == FoldLeft(LAMBDA a, y : IF y[1] >= 0 THEN [a EXCEPT ![y[1] + 1] = y[2]] ELSE a,
                    [i \in 1..64 |-> 0], r)
  IN \A i \in 1..64 :
       LET u == (ZZ[i] % 8) + 1
           vv == (ZZ[i] \div 8) + 1
           m == v[i] * q[i]
           tol == IF q[i] = 1 THEN 422052 ELSE (q[i] * 1048576) \div 3 + 133693
       IN /\ Abs(m) < 2040
          /\ Abs(m * 262144 - X[u][vv] \div 2) <= tol \div 2

\* C18 through encoding: unit of one colour with quantization value 1, so that its DC coefficient is
\* 8 (v - 128); v against the equations
TileOK(c, bx, by, r) ==
  LET o == (SampleY(st.frame, c, by, 0) * E.w + SampleX(st.frame, c, bx, 0)) * E.bpp
      bgr == E.ct \in {"Bgr", "Bgra"}
      rr == E.px[o + (IF bgr THEN 3 ELSE 1)]
      gg == E.px[o + 2]
      bb == E.px[o + (IF bgr THEN 1 ELSE 3)]
      dc == IF Len(r) > 0 /\ r[1][1] = 0 THEN r[1][2] ELSE 0
      v == dc \div 8 + 128
      grey == rr = gg /\ gg = bb
  IN /\ dc % 8 = 0
     /\ CASE E.ct = "CmykAsYcck" /\ c = 4 -> v = 255 - E.px[o + 4]
          [] c = 1 -> WithinJfif(RealY6(rr, gg, bb), v) /\ (grey => v = rr)
          [] c = 2 -> WithinJfif(RealCb6(rr, gg, bb), v) /\ (grey => v = 128)
          [] OTHER -> WithinJfif(RealCr6(rr, gg, bb), v) /\ (grey => v = 128)

RECURSIVE DecodeUnits(_, _, _, _, _, _)
DecodeUnits(us, n, q, kk, pr, acc) ==
  IF n > Len(us) THEN [p |-> q, k |-> kk, pred |-> pr, err |-> "", res |-> acc]
  ELSE LET c == us[n][1]
           r == Unit(Out, tb.dc[aux.td[c]], tb.ac[aux.ta[c]], q, kk, st.scan.ss, st.scan.se, pr[c])
       IN IF r.err # "" THEN [p |-> r.p, k |-> r.k, pred |-> pr, err |-> r.err, res |-> acc]
          ELSE DecodeUnits(us, n + 1, r.p, r.k,
                           IF st.scan.ss = 0 THEN [pr EXCEPT ![c] = r.c[1][2]] ELSE pr,
                           Append(acc, r.c))

\* which properties a coding failure at position q concerns: a restart marker too early is C04's
FailTags(err, q) ==
  IF err = "overrun"
  THEN LET z == IF AtMarker(Out, q) THEN q ELSE IF AtMarker(Out, Nx(Out, q)) THEN Nx(Out, q) ELSE Nx(Out, Nx(Out, q))
       IN IF AtMarker(Out, z) /\ Out[z + 1] \in 208..215 THEN {"C02", "C03", "C04", "C07"} ELSE CodingTags
  ELSE CodingTags \ {"C05"}

FrameOK == FrameMatches(st.frame, w)

\* everything about the next MCU, as one value
McuResult ==
  LET us == TLCEval(McuUnits(st.frame, st.scan.cs, st.scan.mcu))
      d  == TLCEval(DecodeUnits(us, 1, pos, bit, pred, << >>))
      here == " in MCU " \o ToString(st.scan.mcu) \o " of scan " \o ToString(st.nscans)
  IN IF d.err # ""
     THEN [ok |-> FALSE, tags |-> FailTags(d.err, d.p), text |-> "entropy-coded data does not decode: " \o d.err \o here]
     ELSE
     LET r == Accept(st, [k |-> "MCU", units |-> us], w)
         c1 == us[1][1]
         dc == st.scan.ss = 0
         usable == FrameOK /\ E.px # << >> /\ \A n \in DOMAIN us : HasQ(us[n][1])
         want == NeedExp /\ usable
         \* progressive: expectations are kept from the DC scan, if that was one component per scan
         kept == want /\ ~dc /\ Len(exp[c1]) = UnitsX(st.frame, c1) * UnitsY(st.frame, c1)
         smp == IF want /\ ~kept THEN TLCEval([n \in DOMAIN us |-> Samples(us[n][1], us[n][2], us[n][3])]) ELSE << >>
         xs == IF ~want THEN << >>
               ELSE IF kept THEN << exp[c1][us[1][3] * UnitsX(st.frame, c1) + us[1][2] + 1] >>
               ELSE TLCEval([n \in DOMAIN us |-> ExpUnit(us[n][1], smp[n])])
         miss == IF ~want THEN {} ELSE {n \in DOMAIN us : ~UnitMatches(d.res[n], xs[n], st.scan.ss, st.scan.se)}
         \* first data unit of a component after a restart, DC wrong, everything before right
         afterRst == st.scan.nrst > 0 /\ st.dri > 0 /\ st.scan.mcu % st.dri = 0
         dcbad == afterRst /\ dc /\ ~aux.mis /\ \E n \in miss : xs[n][1] # d.res[n][1][2]
         far == IF Check = "C15" /\ want /\ dc /\ st.scan.se = 63
                THEN {n \in DOMAIN us : ~ErrorBoundOK(us[n][1], smp[n], d.res[n])} ELSE {}
         off == IF Check = "C18" /\ usable /\ dc /\ E.ct \in {"Rgb", "Rgba", "Bgr", "Bgra", "CmykAsYcck"}
                THEN {n \in DOMAIN us : tb.q[QId(us[n][1])][1] = 1 /\ ~TileOK(us[n][1], us[n][2], us[n][3], d.res[n])} ELSE {}
     IN [ ok |-> TRUE, units |-> Len(us), st |-> r.st, p |-> d.p, k |-> d.k, pred |-> d.pred, mis |-> miss # {},
          bad |-> r.bad
              \cup Complain(miss = {}, "C03", "coefficients differ from the transformed picture" \o here)
              \cup Complain(~dcbad, "C04", "DC prediction not reset at a restart marker" \o here)
              \cup Complain(off = {}, "C18", "decoded colour is off" \o here)
              \cup Complain(far = {}, "C15", "quantization error bound" \o here),
          exp |-> IF want /\ st.sof = 2 /\ dc /\ Len(us) = 1 /\ Len(st.scan.cs) = 1
                  THEN [exp EXCEPT ![c1] = Append(@, xs[1])] ELSE exp,
          hist |-> IF Check # "C06" \/ ~cfg.optimize THEN hist
                   ELSE FoldLeft(LAMBDA h, n :
                          FoldLeft(LAMBDA g, y :
                               LET a == IF y[1] = 0 THEN << 0, aux.td[us[n][1]] >> ELSE << 1, aux.ta[us[n][1]] >>
                               IN [g EXCEPT ![a][y[3]] = @ + 1],
                             h, d.res[n]),
                          hist, [n \in DOMAIN us |-> n]) ]

McuStep ==
  \E m \in {McuResult} :
     IF ~m.ok THEN Dead(m.tags, m.text)
     ELSE /\ Step(m.st, m.bad)
          /\ pos' = m.p /\ bit' = m.k /\ pred' = m.pred
          /\ exp' = m.exp /\ hist' = m.hist
          /\ aux' = [aux EXCEPT !.mis = @ \/ m.mis, !.units = @ + m.units]
          /\ Same(<< tid, ph, ei, cfg, w, tb >>)

\* end of an interval or scan: alignment, padding, then a marker
ScanStep ==
  /\ ph = "scan"
  /\ IF ~ScanDone(st) /\ ~RstDue(st) THEN McuStep
     ELSE
     LET pe == PadEnd(Out, pos, bit)
         padbad == Complain(PadOnes(Out, pos, bit), "C05", "padding bits are not all ones")
     IN IF ~AtMarker(Out, pe)
        THEN Dead({"C02", "C05"} \cup (IF RstDue(st) THEN {"C04"} ELSE {}), "surplus data at the end of a scan or restart interval")
        ELSE IF ScanDone(st)
        THEN IF Out[pe + 1] \in 208..215
             THEN \* marker at the very end of a scan
                  /\ bad' = bad \cup padbad \cup {<< "C04", "restart marker at the end of a scan" >>}
                  /\ pos' = pe + 2 /\ bit' = 0
                  /\ Same(<< tid, ph, ei, cfg, w, st, tb, pred, exp, hist, aux >>)
             ELSE LET r == Accept(st, [k |-> "SCANEND"], w) IN
                  /\ Step(r.st, r.bad \cup padbad)
                  /\ pos' = pe /\ bit' = 0 /\ ph' = "seg"
                  /\ Same(<< tid, ei, cfg, w, tb, pred, exp, hist, aux >>)
        ELSE IF Out[pe + 1] \notin 208..215
        THEN Dead({"C02", "C04"}, "restart marker missing")
        ELSE LET r == Accept(st, [k |-> "RST", m |-> Out[pe + 1] - 208], w) IN
             /\ Step(r.st, r.bad \cup padbad)
             /\ pos' = pe + 2 /\ bit' = 0
             /\ pred' = TLCEval([c \in DOMAIN pred |-> 0])
             /\ Same(<< tid, ph, ei, cfg, w, tb, exp, hist, aux >>)

\* header checks only: pass over the coded data up to the next marker that is not RST, counting the RST
SkipChunk == 4000
\* positions of all markers that end or interrupt the coded data, in a stretch of it
FFs(o, a, e) == SelectSeq([j \in 1..(e - a + 1) |-> a + j - 1], LAMBDA i : o[i] = 255 /\ o[i + 1] # 0)
RstWanted == IF st.dri = 0 THEN 0 ELSE (st.scan.total - 1) \div st.dri
SkipResult ==
  LET o == Out
      e == Min2(pos + SkipChunk, N - 1)
      ff == TLCEval(FFs(o, pos, e))
      stops == SelectInSeq(ff, LAMBDA i : o[i + 1] \notin 208..215)
      nr == IF stops = 0 THEN Len(ff) ELSE stops - 1
  IN [e |-> e, stop |-> IF stops = 0 THEN 0 ELSE ff[stops], nrst |-> st.scan.nrst + nr,
      num |-> \A i \in 1..nr : o[ff[i] + 1] - 208 = (st.scan.nrst + i - 1) % 8]
SkipStep ==
  /\ ph = "skip"
  /\ \E r \in {SkipResult} :
     LET num == Complain(r.num, "C04", "restart marker number")
     IN IF r.stop > 0 THEN
             /\ pos' = r.stop /\ ph' = "seg"
             /\ st' = [st EXCEPT !.ph = "tables"]
             /\ bad' = bad \cup num \cup Complain(r.nrst = RstWanted, "C04", "number of restart markers in a scan")
        ELSE IF r.e = N - 1 THEN /\ bad' = bad \cup {<< "C01", "scan without end" >>} /\ ph' = "dead" /\ Same(<< pos, st >>)
        ELSE /\ pos' = r.e + 1 /\ st' = [st EXCEPT !.scan.nrst = r.nrst]
             /\ bad' = bad \cup num
             /\ Same(ph)
  /\ Same(<< tid, ei, cfg, w, tb, bit, pred, exp, hist, aux >>)

\* one line per consumed trace; the caller counts them
Finish ==
  /\ ph \in {"done", "dead"}
  /\ PrintT("END " \o T.id \o " " \o ph \o " " \o ToString(st.nscans) \o " " \o ToString(aux.units)
             \o " " \o ToString(bad))
  /\ ph' = "end"
  /\ Same(<< tid, ei, cfg, w, st, tb, pos, bit, pred, exp, hist, aux, bad >>)

\* the process died or hung while running this scenario
Crashed ==
  /\ ph = "api" /\ "crash" \in DOMAIN T
  /\ bad' = bad \cup {<< "C16", "process died: " \o T.crash >>}
                 \cup Complain(Check \notin ForEvery, Check, "no stream: process died: " \o T.crash)
  /\ ph' = "dead"
  /\ Same(<< tid, ei, cfg, w, st, tb, pos, bit, pred, exp, hist, aux >>)
\* the encoder could not be created (new_file)
NoEncoder ==
  /\ ph = "api" /\ "crash" \notin DOMAIN T /\ ei > Len(T.ev)
  /\ ph' = "done"
  /\ Same(<< tid, ei, cfg, w, st, tb, pos, bit, pred, exp, hist, aux, bad >>)

Next == Crashed \/ NoEncoder \/ ApiCall \/ EncodeCall \/ SegStep \/ HeadEnd \/ SegsStep \/ ScanStep \/ SkipStep \/ Finish
Spec == Init /\ [][Next]_vars

View == << tid, ph, ei, pos, bit, st.nscans, st.scan.mcu, st.scan.nrst >>

\* the verdict for property Check
Concerns == CASE Check = "C13" -> {"C13", "C01", "C04", "C07", "C08", "C09", "C17"}   \* encoding uses the final settings
              [] OTHER -> {Check}
Holds == \A b \in bad : b[1] \notin Concerns
Anything == TRUE       \* for runs in which only complete evaluation matters
Short == [id |-> T.id, phase |-> ph, event |-> ei, position |-> pos, scan |-> st.nscans, mcu |-> st.scan.mcu, complaints |-> bad]
=============================================================================
