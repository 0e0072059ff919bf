------------------------------ MODULE MC_BitIO ------------------------------
(* The bit writer (JfifWriter::write_bits / finalize_bit_buffer) as a machine  *)
(* of any word size, checked against what it has to achieve: the sequence of   *)
(* bits written, stuffed and padded.  Bytes have B bits and the word holds K   *)
(* of them, so that every content of the word at every alignment is explored;  *)
(* B = 8, K = 4 and 8 are the 32 and 64 bit builds.                            *)
(*                                                                             *)
(* Bits are numbers; `pend` is the specification's view: the bits accepted but *)
(* not yet delivered.  `out` holds the bytes the last operation delivered.     *)
EXTENDS Integers, Sequences, TLC

CONSTANTS B, K, MaxSize

RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
W == B * K
FF == Pow(B) - 1
PW == Pow(W)

VARIABLES buf, free, pend, out, lastop
vars == << buf, free, pend, out, lastop >>

\* the n low bits of v, most significant first
BitsOf(v, n) == [i \in 1..n |-> (v \div Pow(n - i)) % 2]
ByteOf(v, i) == (v \div Pow(W - B - i * B)) % Pow(B)      \* i-th byte of the word, 0 first

\* the test that selects the fast path: (word & 0x80..) & !(word + 0x01..), addition wraps
Ones == LET RECURSIVE s(_) s(i) == IF i = 0 THEN 0 ELSE s(i - 1) * Pow(B) + 1 IN s(K)
Suspicious(v) ==
  LET x == (v + Ones) % PW
  IN \E i \in 0..(K - 1) : ByteOf(v, i) >= Pow(B - 1) /\ ByteOf(x, i) < Pow(B - 1)
Stuffed(b) == IF b = FF THEN << FF, 0 >> ELSE << b >>
WordBytes(v) ==
  IF Suspicious(v)
  THEN LET RECURSIVE s(_) s(i) == IF i = K THEN << >> ELSE Stuffed(ByteOf(v, i)) \o s(i + 1) IN s(0)
  ELSE [i \in 1..K |-> ByteOf(v, i - 1)]

\* write_bits: next << buf, free, bytes delivered >>
WriteBits(bu, fr, value, size) ==
  LET f == fr - size IN
  IF f < 0
  THEN LET w == ((bu * Pow(size + f)) % PW) + (value \div Pow(-f))
       IN << value, f + W, WordBytes(w) >>
  ELSE << ((bu * Pow(size)) % PW) + value, f, << >> >>

RECURSIVE FlushBytes(_, _)
FlushBytes(bu, fr) ==
  IF fr <= W - B
  THEN Stuffed((bu \div Pow(W - B - fr)) % Pow(B)) \o FlushBytes(bu, fr + B)
  ELSE << >>

Init == buf = 0 /\ free = W /\ pend = << >> /\ out = << >> /\ lastop = << "none", << >> >>

Write == \E size \in 1..MaxSize : \E value \in 0..(Pow(size) - 1) :
           LET r == WriteBits(buf, free, value, size) IN
           /\ buf' = r[1] /\ free' = r[2] /\ out' = r[3]
           /\ pend' = LET all == pend \o BitsOf(value, size) IN SubSeq(all, (IF r[3] = << >> THEN 0 ELSE W) + 1, Len(all))
           /\ lastop' = << "write", pend \o BitsOf(value, size) >>

\* seven ones (B - 1), then the full bytes; the rest of the padding is dropped
Finalize ==
  LET r == WriteBits(buf, free, Pow(B - 1) - 1, B - 1)
  IN /\ out' = r[3] \o FlushBytes(r[1], r[2])
     /\ buf' = 0 /\ free' = W /\ pend' = << >>
     /\ lastop' = << "fin", pend >>

Next == Write \/ Finalize
Spec == Init /\ [][Next]_vars

\* out without stuffing; "bad" if the stuffing is wrong
RECURSIVE Unstuff(_, _)
Unstuff(s, i) ==
  IF i > Len(s) THEN << >>
  ELSE IF s[i] # FF THEN << s[i] >> \o Unstuff(s, i + 1)
  ELSE IF i < Len(s) /\ s[i + 1] = 0 THEN << FF >> \o Unstuff(s, i + 2) ELSE << -1 >>
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE BitsOf(Head(s), B) \o Flat(Tail(s))

\* the pending bits are the low bits of the buffer
PendingOK == /\ free \in 0..W /\ Len(pend) = W - free
             /\ pend = BitsOf(buf, W - free)
\* delivered bytes are exactly the bits written, in order, stuffed; nothing is lost or doubled
DeliveredOK ==
  lastop[1] # "none" =>
    LET u == Unstuff(out, 1) IN
    /\ \A i \in 1..Len(u) : u[i] >= 0
    /\ IF lastop[1] = "write"
       THEN Flat(u) \o pend = lastop[2]
       ELSE LET n == Len(lastop[2])
                padded == lastop[2] \o [i \in 1..((B - (n % B)) % B) |-> 1]
            IN Flat(u) = padded
\* words with a byte FF are never delivered on the fast path
FastPathOK == \A v \in {buf} : (\E i \in 0..(K - 1) : ByteOf(v, i) = FF) => Suspicious(v)

View == << buf, free, out, lastop >>
=============================================================================
