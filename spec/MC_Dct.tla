------------------------------- MODULE MC_Dct -------------------------------
(* The integer transform of Dct.tla against the definition, for every block of *)
(* samples -128..127.  One pass is linear up to one rounding per output, so    *)
(* its matrix is read off unit vectors, and the worst cases follow from sums   *)
(* of absolute values: one state per coefficient (u, v).                       *)
EXTENDS Dct, Quant, SequencesExt

VARIABLES ph, u, v, q
vars == << ph, u, v, q >>
Init == ph = "start" /\ u \in 1..8 /\ v \in 1..8 /\ q \in {0}
Coefficient == ph = "start" /\ ph' = "coefficient" /\ UNCHANGED << u, v, q >>
\* the quantization values are shared among the states of the first row
Value == ph = "coefficient" /\ ph' = "value" /\ q' \in {x \in 1..255 : x % 64 = ((u - 1) * 8 + v - 1)} /\ UNCHANGED << u, v >>
Next == Coefficient \/ Value
Spec == Init /\ [][Next]_vars

UnitVec(j, a) == [i \in 1..8 |-> IF i = j THEN a ELSE 0]
App(x, first) == Pass(x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], first)
\* M[k][j] / 2^13 is the factor of input j in output k
MT == TLCEval([j \in 1..8 |-> App(UnitVec(j, 2048), TRUE)])
M == TLCEval([k \in 1..8 |-> [j \in 1..8 |-> MT[j][k]]])
MT2 == TLCEval([j \in 1..8 |-> App(UnitVec(j, 32768), FALSE)])

\* sqrt(8) C(u)/2 cos((2x+1) u pi/16) * 2^20, typed in from the definition
S0 == 1048576
S1 == 1454417  S2 == 1370031  S3 == 1232995  S4 == 1048576
S5 == 823861   S6 == 567485   S7 == 289301
TT == << << S0, S0, S0, S0, S0, S0, S0, S0 >>,
         << S1, S3, S5, S7, -S7, -S5, -S3, -S1 >>,
         << S2, S6, -S6, -S2, -S2, -S6, S6, S2 >>,
         << S3, -S7, -S1, -S5, S5, S1, S7, -S3 >>,
         << S4, -S4, -S4, S4, S4, -S4, -S4, S4 >>,
         << S5, -S1, S7, S3, -S3, -S7, S1, -S5 >>,
         << S6, -S2, S2, -S6, -S6, S2, -S2, S6 >>,
         << S7, -S5, S3, -S1, S1, -S3, S5, -S7 >> >>

Sum(f) == FoldLeft(LAMBDA a, b : a + b, 0, f)
Sum64(F(_, _)) == Sum([n \in 1..64 |-> F(((n - 1) \div 8) + 1, ((n - 1) % 8) + 1)])

\* both passes are the same linear map, up to the scale
ASSUME SameMap ==
  \A j \in 1..8 : MT2[j] = MT[j]
\* its constants are those of the definition to 13 bits
ASSUME ConstantsOK ==
  \A k \in 1..8, j \in 1..8 : Abs(M[k][j] * 128 - TT[k][j]) <= 192

\* All errors of the transform (scaled by 8) in units of 2^-20.
\* rounding: half a unit at the end, and half a unit per row of the first pass unless that one is exact
RoundErr == 524288 + (IF u \in {1, 5} THEN 0 ELSE 16 * Sum([y \in 1..8 |-> Abs(M[v][y])]))
\* constants: at most 128 times the sum of the differences of the products of factors
Delta(k, j) == M[k][j] * 128 - TT[k][j]
Diff(y, x) == LET d == Abs((TT[v][y] \div 64) * Delta(u, x) + (TT[u][x] \div 64) * Delta(v, y)) \div 128
                       + Abs(Delta(u, x) * Delta(v, y)) \div 8192
              IN d + 4
ConstErr == Sum64(Diff)
Err == RoundErr + ConstErr + 12000    \* the last for the typed in values, each within half a unit
\* 0.3 of a coefficient
TransformOK == ph = "coefficient" => Err <= (3 * 8 * 1048576) \div 10

\* the weights of every frequency but the lowest cancel: a sample range of -128..127 counts as 127.5
L1(k) == Sum([x \in 1..8 |-> Abs(M[k][x])])
Balanced(k) == Sum(M[k]) = 0
Between(k) == (128 * L1(k) + 1024) \div 2048 + 1
\* largest result (scaled by 8)
Largest == (CeilDiv(L1(u), 64) * CeilDiv(L1(v), 64) * (IF u = 1 /\ v = 1 THEN 1280 ELSE 1275)) \div 163840 + 3
RangeOK ==
  ph = "coefficient" =>
    /\ u > 1 => Balanced(u)
    \* 16 bits suffice between the passes, 32 bits for every intermediate value
    /\ Between(u) <= 4097
    /\ 4097 * (2 * 25172 + 4 * 20995 + 4 * 16069 + 8 * 9633) + 16384 < 2147483647
    \* every AC coefficient has a category of at most 10, differences of DC coefficients of at most 11
    /\ (u > 1 \/ v > 1) => Largest + 4 < 8 * 1024
    /\ (u = 1 /\ v = 1) => Largest + 4 < 8 * 1025

\* quantization value q: product of the decoded coefficient and q against the true coefficient, C15
Worst(n) == LET rc == Recip(8 * n) IN
            FoldLeft(LAMBDA a, x : Max2(a, Abs(8 * n * QuantizeR(x - 1, rc) - (x - 1))), 0, [x \in 1..8196 |-> x])
BoundOK ==
  ph = "value" =>
    LET w == Worst(q) IN
    /\ 30 * w + 72 <= 160 * q + 60                  \* 2/3 q + 1/4
    /\ q = 1 => 10 * w + 24 <= 64                   \* 0.8
=============================================================================
