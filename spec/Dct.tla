-------------------------------- MODULE Dct ---------------------------------
(* The accurate integer forward DCT (libjpeg jfdctint, Loeffler-Ligtenberg-    *)
(* Moschytz) and the DCT definition of T.81 A.3.3 in fixed point.              *)
(* Blocks are 64-tuples in row-major order; results are scaled by 8 for the    *)
(* integer transform.                                                          *)
EXTENDS JpegMath, TLC

DescaleR(x, p) == (x + p \div 2) \div p     \* p is a power of two

\* one 1-D pass; the even outputs 0 and 4 are scaled by m / dv, the others divided by p
Pass(a0, a1, a2, a3, a4, a5, a6, a7, first) ==
  LET p  == IF first THEN 2048 ELSE 32768
      t0 == a0 + a7   t7 == a0 - a7
      t1 == a1 + a6   t6 == a1 - a6
      t2 == a2 + a5   t5 == a2 - a5
      t3 == a3 + a4   t4 == a3 - a4
      t10 == t0 + t3  t13 == t0 - t3
      t11 == t1 + t2  t12 == t1 - t2
      e0 == IF first THEN (t10 + t11) * 4 ELSE DescaleR(t10 + t11, 4)
      e4 == IF first THEN (t10 - t11) * 4 ELSE DescaleR(t10 - t11, 4)
      y1 == (t12 + t13) * 4433
      z1 == -(t4 + t7) * 7373
      z2 == -(t5 + t6) * 20995
      z5 == (t4 + t6 + t5 + t7) * 9633
      z3 == -(t4 + t6) * 16069 + z5
      z4 == -(t5 + t7) * 3196 + z5
  IN << e0,
        DescaleR(t7 * 12299 + z1 + z4, p),
        DescaleR(y1 + t13 * 6270, p),
        DescaleR(t6 * 25172 + z2 + z3, p),
        e4,
        DescaleR(t5 * 16819 + z2 + z4, p),
        DescaleR(y1 - t12 * 15137, p),
        DescaleR(t4 * 2446 + z1 + z3, p) >>

\* s: 64 level-shifted samples; result[x][v] = coefficient (v, x) scaled by 8
FdctCols(s) ==
  LET r0 == Pass(s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], TRUE)
      r1 == Pass(s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], TRUE)
      r2 == Pass(s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], TRUE)
      r3 == Pass(s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], TRUE)
      r4 == Pass(s[33], s[34], s[35], s[36], s[37], s[38], s[39], s[40], TRUE)
      r5 == Pass(s[41], s[42], s[43], s[44], s[45], s[46], s[47], s[48], TRUE)
      r6 == Pass(s[49], s[50], s[51], s[52], s[53], s[54], s[55], s[56], TRUE)
      r7 == Pass(s[57], s[58], s[59], s[60], s[61], s[62], s[63], s[64], TRUE)
  IN TLCEval([x \in 1..8 |->
        Pass(r0[x], r1[x], r2[x], r3[x], r4[x], r5[x], r6[x], r7[x], FALSE)])

-----------------------------------------------------------------------------
(* Definition: X(u,v) = C(u)C(v)/4 sum s(x,y) cos((2x+1)u pi/16) cos(...).      *)
(* CosT[u+1][x+1] = C(u)/2 cos((2x+1) u pi/16) * 2^20, split into two halves    *)
(* for the second pass.  Result is scaled by 2^19, accurate to about 2^-8.      *)
K0 == 370728
K1 == 514214  K2 == 484379  K3 == 435930  K4 == 370728
K5 == 291279  K6 == 200636  K7 == 102284
CosT == << << K0, K0, K0, K0, K0, K0, K0, K0 >>,
           << K1, K3, K5, K7, -K7, -K5, -K3, -K1 >>,
           << K2, K6, -K6, -K2, -K2, -K6, K6, K2 >>,
           << K3, -K7, -K1, -K5, K5, K1, K7, -K3 >>,
           << K4, -K4, -K4, K4, K4, -K4, -K4, K4 >>,
           << K5, -K1, K7, K3, -K3, -K7, K1, -K5 >>,
           << K6, -K2, K2, -K6, -K6, K2, -K2, K6 >>,
           << K7, -K5, K3, -K1, K1, -K3, K5, -K7 >> >>
CosHi == [u \in 1..8 |-> [x \in 1..8 |-> CosT[u][x] \div 1024]]
CosLo == [u \in 1..8 |-> [x \in 1..8 |-> CosT[u][x] % 1024]]

Dot(c, a, o) == c[1] * a[o + 1] + c[2] * a[o + 2] + c[3] * a[o + 3] + c[4] * a[o + 4]
              + c[5] * a[o + 5] + c[6] * a[o + 6] + c[7] * a[o + 7] + c[8] * a[o + 8]

\* result[u][v] = coefficient with horizontal frequency u and vertical frequency v, times 2^19
TrueDct(s, hi, lo) ==
  LET rows == TLCEval([y \in 1..8 |-> [u \in 1..8 |-> (Dot(CosT[u], s, (y - 1) * 8) + 1024) \div 2048]])
      col(u) == << rows[1][u], rows[2][u], rows[3][u], rows[4][u],
                   rows[5][u], rows[6][u], rows[7][u], rows[8][u] >>
  IN TLCEval([u \in 1..8 |->
       LET c == TLCEval(col(u)) IN
       [v \in 1..8 |-> Dot(hi[v], c, 0) + (Dot(lo[v], c, 0) + 512) \div 1024]])
=============================================================================
