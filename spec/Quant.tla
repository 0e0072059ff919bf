------------------------------- MODULE Quant --------------------------------
(* Quantization tables (IJG quality scaling) and the fixed point quantizer.    *)
EXTENDS JpegMath, JpegTables, TLC

QScale(quality) == LET q == Clamp(quality, 1, 100) IN
                   IF q < 50 THEN 5000 \div q ELSE 200 - q * 2
ScaleQ(v, quality) == Clamp((v * QScale(quality) + 50) \div 100, 1, 255)

\* t = [k |-> preset name or "Custom", v |-> custom values (natural order)]
QTable(t, quality, luma) ==
  IF t.k = "Custom"
  THEN TLCEval([i \in 1..64 |-> Clamp(t.v[((i - 1) % Len(t.v)) + 1], 1, 255)])
  ELSE LET base == IF luma THEN LumaPreset(t.k) ELSE ChromaPreset(t.k)
       IN TLCEval([i \in 1..64 |-> ScaleQ(base[i], quality)])

\* 15 bit reciprocal of the divisor d = 8 q and the rounding correction
Recip(d) == LET r == 32768 \div d
                f == 32768 % d
            IN IF f = 0 THEN << r, d \div 2 >>
               ELSE IF f <= d \div 2 THEN << r, d \div 2 + 1 >>
               ELSE << r + 1, d \div 2 >>

\* x: transform output scaled by 8; q: quantization value
QuantizeR(x, rc) == IF x >= 0 THEN ((x + rc[2]) * rc[1]) \div 32768
                              ELSE -(((-x + rc[2]) * rc[1]) \div 32768)
Quantize(x, q) == QuantizeR(x, Recip(8 * q))
=============================================================================
