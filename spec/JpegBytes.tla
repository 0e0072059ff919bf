----------------------------- MODULE JpegBytes ------------------------------
(* Bytes of a stream (1-based sequence o) to items, tables and coefficients.   *)
EXTENDS JpegMath, Huffman

U16(o, p) == o[p] * 256 + o[p + 1]

\* Segment at p: length field, first payload byte, next position. n = number of bytes.
SegFits(o, p, n) == p + 3 <= n /\ U16(o, p + 2) >= 2 /\ p + 2 + U16(o, p + 2) <= n + 1
SegLen2(o, p) == U16(o, p + 2) - 2
SegEnd(o, p)  == p + 2 + U16(o, p + 2)       \* position behind the segment

\* Frame header; ok iff the length field matches
SofParse(o, p) ==
  LET nc == o[p + 9] IN
  [ k |-> "SOF", sof |-> o[p + 1] - 192, prec |-> o[p + 4], h |-> U16(o, p + 5), w |-> U16(o, p + 7),
    comps |-> TLCEval([c \in 1..nc |-> LET a == p + 10 + (c - 1) * 3 IN
                 [id |-> o[a], h |-> o[a + 1] \div 16, v |-> o[a + 1] % 16, q |-> o[a + 2]]]) ]
SofFits(o, p) == SegLen2(o, p) >= 6 /\ SegLen2(o, p) = 6 + 3 * o[p + 9]

\* Scan header; component numbers resolved with the frame
SosFits(o, p) == SegLen2(o, p) >= 4 /\ SegLen2(o, p) = 4 + 2 * o[p + 4]
SosParse(o, p, frame) ==
  LET n == o[p + 4]
      e == p + 5 + 2 * n
      num(id) == IF \E c \in DOMAIN frame.comps : frame.comps[c].id = id
                 THEN CHOOSE c \in DOMAIN frame.comps : frame.comps[c].id = id ELSE 0
  IN [ k |-> "SOS",
       cs |-> TLCEval([i \in 1..n |-> num(o[p + 3 + 2 * i])]),
       td |-> TLCEval([i \in 1..n |-> o[p + 4 + 2 * i] \div 16]),
       ta |-> TLCEval([i \in 1..n |-> o[p + 4 + 2 * i] % 16]),
       ss |-> o[e], se |-> o[e + 1], ah |-> o[e + 2] \div 16, al |-> o[e + 2] % 16 ]

\* DQT: sequence of [id, v (zigzag order)]; only 8 bit tables are legal in this coding process
DqtFits(o, p) == LET L == SegLen2(o, p) IN L > 0 /\ L % 65 = 0 /\ \A i \in 0..(L \div 65 - 1) : o[p + 4 + 65 * i] < 16
DqtParse(o, p) ==
  TLCEval([i \in 1..(SegLen2(o, p) \div 65) |->
     LET a == p + 4 + 65 * (i - 1) IN [id |-> o[a], v |-> SubSeq(o, a + 1, a + 64)]])

\* DHT: sequence of [cls, id, bits, vals]; << >> with ok = FALSE if the segment is malformed
RECURSIVE DhtFrom(_, _, _, _)
DhtFrom(o, a, e, acc) ==
  IF a = e THEN [ok |-> TRUE, t |-> acc]
  ELSE IF a + 17 > e THEN [ok |-> FALSE, t |-> acc]
  ELSE LET bits == SubSeq(o, a + 1, a + 16)
           n == SumBits(bits)
       IN IF a + 17 + n > e THEN [ok |-> FALSE, t |-> acc]
          ELSE DhtFrom(o, a + 17 + n, e,
                 Append(acc, [cls |-> o[a] \div 16, id |-> o[a] % 16, bits |-> bits,
                              vals |-> SubSeq(o, a + 17, a + 16 + n)]))
DhtParse(o, p) == DhtFrom(o, p + 4, SegEnd(o, p), << >>)

-----------------------------------------------------------------------------
(* Entropy-coded data.  A position is (p, k): byte p, k bits of it consumed.    *)
AtMarker(o, p) == o[p] = 255 /\ o[p + 1] # 0
\* next data byte; stuffed zeros are skipped, a marker is never passed
Nx(o, p) == IF o[p] # 255 THEN p + 1 ELSE IF o[p + 1] = 0 THEN p + 2 ELSE p

\* One Huffman symbol: << p, k, symbol, overrun >>; symbol -1: no such code
Sym(o, t, p, k) ==
  LET p1 == Nx(o, p)
      p2 == Nx(o, p1)
      v  == ((o[p] * 65536 + o[p1] * 256 + o[p2]) \div P2(8 - k)) % 65536
      l  == CodeLen(t.lim, v)
      b  == k + l
  IN IF l = 17 THEN << p, k, -1, FALSE >>
     ELSE IF b < 8 THEN << p, b, t.vals[v \div P2(16 - l) + t.off[l]], AtMarker(o, p) >>
     ELSE IF b < 16 THEN << p1, b - 8, t.vals[v \div P2(16 - l) + t.off[l]],
                            AtMarker(o, IF b = 8 THEN p ELSE p1) >>
     ELSE << p2, b - 16, t.vals[v \div P2(16 - l) + t.off[l]],
             AtMarker(o, IF b = 16 THEN p1 ELSE p2) >>

\* s additional bits as signed value (T.81 F.2.2.1): << p, k, value, overrun >>
Val(o, p, k, s) ==
  IF s = 0 THEN << p, k, 0, FALSE >>
  ELSE
  LET p1 == Nx(o, p)
      p2 == Nx(o, p1)
      v  == (((o[p] * 65536 + o[p1] * 256 + o[p2]) \div P2(8 - k)) % 65536) \div P2(16 - s)
      x  == IF v >= P2(s - 1) THEN v ELSE v - P2(s) + 1
      b  == k + s
  IN IF b < 8 THEN << p, b, x, AtMarker(o, p) >>
     ELSE IF b < 16 THEN << p1, b - 8, x, AtMarker(o, IF b = 8 THEN p ELSE p1) >>
     ELSE << p2, b - 16, x, AtMarker(o, IF b = 16 THEN p1 ELSE p2) >>

\* Result of decoding a band of a block: c = sequence of << index, value, symbol >>,
\* index -1 for EOB and ZRL.  err: "" or the reason.
Res(p, k, err, c) == [p |-> p, k |-> k, err |-> err, c |-> c]

RECURSIVE AcBand(_, _, _, _, _, _, _)
AcBand(o, t, p, k, i, se, acc) ==
  IF i > se THEN Res(p, k, "", acc)
  ELSE
  LET y == Sym(o, t, p, k)
      s == y[3]
  IN IF s = -1 THEN Res(p, k, "code", acc)
     ELSE IF y[4] THEN Res(p, k, "overrun", acc)
     ELSE IF s = 0 THEN Res(y[1], y[2], "", Append(acc, << -1, 0, 0 >>))
     ELSE IF s = 240 THEN (IF i + 15 > se THEN Res(p, k, "range", acc)
                           ELSE AcBand(o, t, y[1], y[2], i + 16, se, Append(acc, << -1, 0, 240 >>)))
     ELSE IF s % 16 = 0 \/ s % 16 > 10 \/ i + s \div 16 > se THEN Res(p, k, "range", acc)
     ELSE LET z == Val(o, y[1], y[2], s % 16)
          IN IF z[4] THEN Res(p, k, "overrun", acc)
             ELSE AcBand(o, t, z[1], z[2], i + s \div 16 + 1, se, Append(acc, << i + s \div 16, z[3], s >>))

DcUnit(o, t, p, k, pred) ==
  LET y == Sym(o, t, p, k)
      s == y[3]
  IN IF s = -1 THEN Res(p, k, "code", << >>)
     ELSE IF y[4] THEN Res(p, k, "overrun", << >>)
     ELSE IF s > 11 THEN Res(p, k, "range", << >>)
     ELSE LET z == Val(o, y[1], y[2], s)
          IN IF z[4] THEN Res(p, k, "overrun", << >>)
             ELSE Res(z[1], z[2], "", << << 0, pred + z[3], s >> >>)

\* one data unit of a scan with band ss..se
Unit(o, dct, act, p, k, ss, se, pred) ==
  IF ss > 0 THEN AcBand(o, act, p, k, ss, se, << >>)
  ELSE LET d == DcUnit(o, dct, p, k, pred)
       IN IF d.err # "" \/ se = 0 THEN d
          ELSE AcBand(o, act, d.p, d.k, 1, se, d.c)

\* padding at the end of an interval: all unused bits of the last byte are ones
PadOnes(o, p, k) == k = 0 \/ (o[p] % P2(8 - k)) = P2(8 - k) - 1
\* position behind the last (padded) byte
PadEnd(o, p, k) == IF k = 0 THEN p ELSE Nx(o, p)
=============================================================================
