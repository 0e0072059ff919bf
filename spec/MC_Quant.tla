------------------------------ MODULE MC_Quant ------------------------------
(* Quantization tables and the fixed point quantizer for every quality, preset *)
(* and quantization value: one state per value (q) or quality.                 *)
EXTENDS Quant

CONSTANTS Qs,       \* quantization values
          Qualities, MaxX, StepX
AllQs == 1..255
AllQu == 0..101
Presets == {"Default", "Flat", "CustomMsSsim", "CustomPsnrHvs", "ImageMagick", "KleinSilversteinCarney",
            "DentalXRays", "VisualDetectionModel", "ImprovedDetectionModel"}
VARIABLES kind, n
vars == << kind, n >>
\* the second step lets the workers share the values
Init == (kind = "start-q" /\ n \in Qs) \/ (kind = "start-t" /\ n \in Qualities)
Next == /\ kind \in {"start-q", "start-t"}
        /\ kind' = IF kind = "start-q" THEN "q" ELSE "t"
        /\ n' = n
Spec == Init /\ [][Next]_vars

Xs == {x * StepX : x \in 0..(MaxX \div StepX)}
\* a coefficient x / 8 of the transform; the quantizer rounds x / 8q, and its 15 bit reciprocal is off by up to
\* (x + 4n) n / 8192, for a step of 8 n (x <= 8192 for every transform output)
QuantizerOK ==
  kind = "q" =>
    LET rc == Recip(8 * n) IN
    \A x \in Xs :
      LET y == QuantizeR(x, rc) IN
      /\ y >= 0 /\ QuantizeR(-x, rc) = -y
      /\ Abs(8 * n * y - x) <= 4 * n + CeilDiv((x + 4 * n) * n, 8192) + 1
      \* C15's share of the quantizer: 2/3 q, of which the transform takes none
      /\ 3 * Abs(8 * n * y - x) <= 16 * n + 3
      /\ (x % (8 * n) = 0) => y = x \div (8 * n)
      \* fits into the coded categories for all transform outputs
      /\ Category(y) <= 11
TablesOK ==
  kind = "t" =>
    \A p \in Presets, l \in BOOLEAN :
      LET t == QTable([k |-> p, v |-> << >>], n, l) IN
      /\ Len(t) = 64 /\ \A i \in 1..64 : t[i] \in 1..255
      /\ n = 50 => t = [i \in 1..64 |-> Clamp((IF l THEN LumaPreset(p) ELSE ChromaPreset(p))[i], 1, 255)]
      /\ n >= 100 => \A i \in 1..64 : t[i] = 1
      /\ n = 0 => t = QTable([k |-> p, v |-> << >>], 1, l)
      \* better quality never coarsens a value
      /\ LET b == QTable([k |-> p, v |-> << >>], n + 1, l) IN \A i \in 1..64 : b[i] <= t[i]
CustomOK ==
  kind = "t" =>
    \A v \in {0, 1, 2, 254, 255, 256, 257, 511, 65535} :
      QTable([k |-> "Custom", v |-> << v >>], n, TRUE) = [i \in 1..64 |-> Clamp(v, 1, 255)]
=============================================================================
