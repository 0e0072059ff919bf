----------------------------- MODULE MC_Huffman -----------------------------
(* Annex K.2 as used for the optimized tables, against brute force: for every  *)
(* frequency function over a small alphabet and a small length limit.          *)
EXTENDS Huffman, Integers

CONSTANTS Syms,      \* number of symbols; symbol Syms is the reserved code point
          MaxFreq, Lim
VARIABLE freq
\* in two steps, so that the workers share the functions
Init == freq \in [0..Syms -> 0..MaxFreq] /\ freq[Syms] = 1 /\ freq[0] = 0 /\ freq[1] > 0
Next == freq[0] = 0 /\ \E n \in 1..MaxFreq : freq' = [freq EXCEPT ![0] = n]
Spec == Init /\ [][Next]_freq

Used == {s \in 0..(Syms - 1) : freq[s] > 0}
Size == TLCEval(CodeSizes(freq))
Bits(lm) == TLCEval(K2Bits(Size, lm))
Bits16(b) == [l \in 1..16 |-> IF l <= Len(b) THEN b[l] ELSE 0]
MaxSize == Max({Size[s] : s \in DOMAIN Size})
Vals == K2Vals(Size, Syms)

\* K.1 gives a full prefix code over the used symbols and the reserved one
KraftOne == LET RECURSIVE s(_) s(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN P2(16 - Size[x]) + s(S \ {x})
            IN s(DOMAIN Size) = P2(16)
\* the table after K.3 is valid for JPEG, within the limit, and has every used symbol
TableOK == LET b == Bits(Lim) IN
           (P2(Lim) > Cardinality(Used)) =>
             /\ SumBits(b) = Cardinality(Used)
             /\ ValidTable(Bits16(b), Vals, TRUE)
             /\ ToSet(Vals) = Used

\* all assignments of lengths 1..n to the used symbols and the reserved code point
Leaves == Used \cup {Syms}
Lens(n) == [Leaves -> 1..n]
KraftOK(l) == LET RECURSIVE s(_) s(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN P2(16 - l[x]) + s(S \ {x})
              IN s(Leaves) <= P2(16)
CostOf(l, S0) == LET RECURSIVE s(_) s(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN freq[x] * l[x] + s(S \ {x})
                 IN s(S0)
Cost(lm) == TotalLen(Bits16(Bits(lm)), Vals, freq)
\* K.1 is optimal for the frequencies including the reserved one, and giving up the place of the reserved
\* code point makes nothing longer
Optimal == (MaxSize <= Lim) => /\ \A l \in Lens(Lim) : KraftOK(l) => CostOf(l, Leaves) >= CostOf(Size, Leaves)
                               /\ Cost(Lim) <= CostOf(Size, Used)
\* with the length limit: no table of the used symbols within the limit beats the unlimited one
LimitCost == (P2(Lim) > Cardinality(Used)) => Cost(Lim) >= Cost(16)
=============================================================================
