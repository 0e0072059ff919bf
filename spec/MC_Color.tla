------------------------------ MODULE MC_Color ------------------------------
(* The fixed point colour conversion against the JFIF equations: one state per *)
(* pair (r, g), every b.                                                       *)
EXTENDS Color

CONSTANTS Rs, Gs
Bytes == 0..255
Some == {0, 1, 64, 127, 128, 129, 200, 254, 255}
VARIABLES r, g
vars == << r, g >>
Init == r \in Rs /\ g = -1
Next == g = -1 /\ g' \in Gs /\ r' = r
Spec == Init /\ [][Next]_vars

InRange(v) == v \in 0..255
ColorsOK ==
  g = -1 \/ \A b \in 0..255 :
    LET y == FixY(r, g, b)
        cb == FixCb(r, g, b)
        cr == FixCr(r, g, b)
    IN InRange(y) /\ InRange(cb) /\ InRange(cr) /\ ColorOK(r, g, b, y, cb, cr)
=============================================================================
