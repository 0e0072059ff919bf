------------------------------ MODULE Huffman -------------------------------
(* JPEG Huffman tables: validity (T.81 Annex C), canonical decoding (Annex F)  *)
(* and the table construction procedure of Annex K.2 as cost reference.        *)
EXTENDS JpegMath, TLC, FiniteSetsExt, SequencesExt

\* bits: 16 code length counts; vals: symbols in code order
SumBits(bits) == FoldLeft(LAMBDA a, b : a + b, 0, bits)

\* Kraft sum scaled by 2^16.  JPEG reserves the all-ones code word of every length,
\* so one code word of the longest length must stay free.
Kraft(bits) == FoldLeft(LAMBDA a, l : a + bits[l] * P2(16 - l), 0, << 1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16 >>)

RECURSIVE OverfullAt(_, _, _)
OverfullAt(bits, l, code) ==      \* code = first free code of length l (Annex C, figure C.2)
  IF l > 16 THEN FALSE
  ELSE LET c == code + bits[l] IN
       IF c > P2(l) \/ (bits[l] > 0 /\ c = P2(l)) THEN TRUE   \* overflow or all-ones code used
       ELSE OverfullAt(bits, l + 1, 2 * c)

ValidTable(bits, vals, isDC) ==
  /\ SumBits(bits) = Len(vals)
  /\ Len(vals) >= 1
  /\ Len(vals) <= 256
  /\ ~OverfullAt(bits, 1, 0)
  /\ Cardinality(ToSet(vals)) = Len(vals)
  /\ isDC => \A i \in 1..Len(vals) : vals[i] <= 11     \* categories of 8 bit images

-----------------------------------------------------------------------------
(* Decoder table: lim[l] = first left-aligned 16 bit word that is beyond the   *)
(* codes of length <= l; off[l] maps the code prefix to the value index.       *)
RECURSIVE MkDec(_, _, _, _, _, _)
MkDec(bits, l, code, k, lim, off) ==
  IF l > 16 THEN [lim |-> lim, off |-> off]
  ELSE LET c == code + bits[l] IN
       MkDec(bits, l + 1, 2 * c, k + bits[l],
             Append(lim, c * P2(16 - l)),
             Append(off, k - code + 1))
DecTable(bits, vals) ==
  LET d == MkDec(bits, 1, 0, 0, << >>, << >>)
  IN [bits |-> bits, vals |-> vals, lim |-> d.lim, off |-> d.off]

\* code length of the code word at the front of the 16 bit window v; 17 = no such code
CodeLen(lim, v) ==
  IF v < lim[4] THEN (IF v < lim[2] THEN (IF v < lim[1] THEN 1 ELSE 2) ELSE (IF v < lim[3] THEN 3 ELSE 4))
  ELSE IF v < lim[8] THEN (IF v < lim[6] THEN (IF v < lim[5] THEN 5 ELSE 6) ELSE (IF v < lim[7] THEN 7 ELSE 8))
  ELSE IF v < lim[12] THEN (IF v < lim[10] THEN (IF v < lim[9] THEN 9 ELSE 10) ELSE (IF v < lim[11] THEN 11 ELSE 12))
  ELSE IF v < lim[16] THEN (IF v < lim[14] THEN (IF v < lim[13] THEN 13 ELSE 14) ELSE (IF v < lim[15] THEN 15 ELSE 16))
  ELSE 17

\* code length of every symbol of a table
LenOf(bits, vals) ==
  LET RECURSIVE go(_, _, _)
      go(l, k, acc) == IF l > 16 THEN acc
                       ELSE go(l + 1, k + bits[l], acc \o [j \in 1..bits[l] |-> << vals[k + j], l >>])
  IN go(1, 0, << >>)

-----------------------------------------------------------------------------
(* Annex K.2.  freq: function 0..256 -> Nat, freq[256] = 1 is the reserved      *)
(* code point.  The code sizes follow the tie rule of figure K.1 (the largest   *)
(* value among the least frequent), K.3 limits them to `limit` bits.           *)
Least(freq, S) ==     \* largest element of S with the least non-zero frequency, -1 if none
  FoldLeft(LAMBDA a, i : IF i \in S /\ freq[i] > 0 /\ (a = -1 \/ freq[i] <= freq[a]) THEN i ELSE a,
           -1, [i \in 1..(Cardinality(DOMAIN freq)) |-> i - 1])

\* trees: sequence of [root, f, leaves] sorted by nothing; n^2 merge is enough for <= 257 symbols
RECURSIVE Merge(_, _)
Merge(trees, size) ==
  IF Len(trees) <= 1 THEN size
  ELSE LET better(a, b) == \* b before a : least frequency, then largest root
             trees[b].f < trees[a].f \/ (trees[b].f = trees[a].f /\ trees[b].root > trees[a].root)
           n  == Len(trees)
           idx == TLCEval([i \in 1..n |-> i])
           i1 == FoldLeft(LAMBDA a, b : IF a = 0 \/ better(a, b) THEN b ELSE a, 0, idx)
           i2 == FoldLeft(LAMBDA a, b : IF b = i1 THEN a ELSE IF a = 0 \/ better(a, b) THEN b ELSE a, 0, idx)
           lv == trees[i1].leaves \cup trees[i2].leaves
           m  == [root |-> trees[i1].root, f |-> trees[i1].f + trees[i2].f, leaves |-> lv]
           a  == Min2(i1, i2)
           b  == Max2(i1, i2)
           rest == SubSeq(trees, 1, a - 1) \o SubSeq(trees, a + 1, b - 1) \o SubSeq(trees, b + 1, n)
       IN Merge(TLCEval(Append(rest, m)), TLCEval([s \in DOMAIN size |-> IF s \in lv THEN size[s] + 1 ELSE size[s]]))

\* code sizes per symbol (figure K.1); symbols with frequency 0 are absent
CodeSizes(freq) ==
  LET syms == {s \in DOMAIN freq : freq[s] > 0}
      seq  == SetToSeq(syms)
  IN Merge(TLCEval([i \in 1..Len(seq) |-> [root |-> seq[i], f |-> freq[seq[i]], leaves |-> {seq[i]}]]),
           [s \in syms |-> 0])

\* figure K.2: number of codes of each size
CountSizes(size) ==
  LET m == IF DOMAIN size = {} THEN 1 ELSE Max({size[s] : s \in DOMAIN size} \cup {2})
  IN TLCEval([l \in 1..m |-> Cardinality({s \in DOMAIN size : size[s] = l})])

\* figure K.3: limit code lengths to lm bits, then drop the reserved code point
RECURSIVE LimitK3(_, _, _)
LimitK3(bits, i, lm) ==
  IF i <= lm THEN bits
  ELSE IF bits[i] = 0 THEN LimitK3(bits, i - 1, lm)
  ELSE LET j == Max({k \in 1..(i - 2) : bits[k] > 0})
       IN LimitK3(TLCEval([l \in DOMAIN bits |->
             bits[l] + (IF l = i THEN -2 ELSE 0) + (IF l = i - 1 THEN 1 ELSE 0)
                     + (IF l = j + 1 THEN 2 ELSE 0) + (IF l = j THEN -1 ELSE 0)]), i, lm)
DropReserved(bits) ==
  LET L == Max({k \in DOMAIN bits : bits[k] > 0}) IN [bits EXCEPT ![L] = @ - 1]

K2Bits(size, lm) ==
  LET b0 == CountSizes(size)
      b1 == LimitK3(b0, Len(b0), lm)
      b2 == TLCEval([l \in 1..lm |-> IF l <= Len(b1) THEN b1[l] ELSE 0])
  IN DropReserved(b2)

\* figure K.4: values ordered by code size, then by value (without the reserved one)
K2Vals(size, reserved) ==
  SetToSortSeq(DOMAIN size \ {reserved},
               LAMBDA a, b : size[a] < size[b] \/ (size[a] = size[b] /\ a < b))

TotalLen(bits, vals, freq) ==
  LET lens == LenOf(bits, vals)
  IN FoldLeft(LAMBDA a, x : a + freq[x[1]] * x[2], 0, lens)

K2Cost(freq, lm, reserved) ==
  LET size == TLCEval(CodeSizes(freq))
      bits == TLCEval(K2Bits(size, lm))
  IN TotalLen(bits, K2Vals(size, reserved), freq)
=============================================================================
