------------------------------ MODULE JpegMath ------------------------------
(* Small arithmetic helpers used by all modules.  TLC integers are 32 bit. *)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a)     == IF a < 0 THEN -a ELSE a
CeilDiv(a, b) == (a + b - 1) \div b
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

\* Pow2[n+1] = 2^n
Pow2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768,
           65536, 131072, 262144, 524288, 1048576, 2097152, 4194304 >>
P2(n) == Pow2[n + 1]

\* number of bits of the magnitude category of v (T.81 F.1.2.1)
Category(v) ==
  LET a == Abs(v) IN
  CHOOSE n \in 0..20 : /\ a < P2(n)
                       /\ (n > 0 => a >= P2(n - 1))

\* division rounding to nearest, halves up; b > 0
RoundDiv(a, b) == (2 * a + b) \div (2 * b)
=============================================================================
