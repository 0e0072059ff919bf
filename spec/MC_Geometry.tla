----------------------------- MODULE MC_Geometry ----------------------------
(* Geometry against the definitions of T.81 A.1/A.2, for every frame of the    *)
(* configured space: one state per frame.                                      *)
EXTENDS Geometry, Api

CONSTANTS Types, Samplings, MaxW, MaxH
VARIABLE f
\* in two steps, so that the workers share the frames
Init == \E jt \in Types, s \in Samplings, w \in 1..MaxW :
          f = [w |-> w, h |-> 1, jt |-> jt, comps |-> ExpComps(jt, Factors(s))]
Next == f.h = 1 /\ \E h \in 2..MaxH : f' = [f EXCEPT !.h = h]
Spec == Init /\ [][Next]_f

C == 1..Len(f.comps)
All == [c \in C |-> c]

\* a non-interleaved scan covers each data unit of the component exactly once, row by row
ScanCovers ==
  \A c \in C :
    LET n == NumMcus(f, << c >>)
        us == [m \in 0..(n - 1) |-> McuUnits(f, << c >>, m)]
    IN /\ \A m \in 0..(n - 1) : Len(us[m]) = 1
       /\ {us[m][1] : m \in 0..(n - 1)} = {<< c, x, y >> : x \in 0..(UnitsX(f, c) - 1), y \in 0..(UnitsY(f, c) - 1)}
       /\ n = UnitsX(f, c) * UnitsY(f, c)
\* an interleaved scan covers each data unit of the padded components exactly once
InterleavedCovers ==
  LET n == NumMcus(f, All)
      us == [m \in 0..(n - 1) |-> McuUnits(f, All, m)]
      per == Len(us[0])
      got == UNION {{us[m][i] : i \in 1..per} : m \in 0..(n - 1)}
      want == UNION {{<< c, x, y >> : x \in 0..(McusX(f) * f.comps[c].h - 1), y \in 0..(McusY(f) * f.comps[c].v - 1)} : c \in C}
  IN Len(f.comps) > 1 => (got = want /\ n * per = Cardinality(want))
\* the padded component is at most one MCU larger than the component, and covers it
Padding ==
  \A c \in C : /\ McusX(f) * f.comps[c].h >= UnitsX(f, c) /\ (McusX(f) - 1) * f.comps[c].h * 8 < CompW(f, c)
               /\ McusY(f) * f.comps[c].v >= UnitsY(f, c) /\ (McusY(f) - 1) * f.comps[c].v * 8 < CompH(f, c)
\* samples: inside the picture; inside the component they are the subsampling grid, and it covers the picture
Grid ==
  \A c \in C :
    LET dx == Hmax(f) \div f.comps[c].h
        dy == Vmax(f) \div f.comps[c].v
    IN /\ \A b \in 0..(McusX(f) * f.comps[c].h - 1), i \in 0..7 :
            LET x == SampleX(f, c, b, i) IN
            /\ x \in 0..(f.w - 1)
            /\ (b * 8 + i < CompW(f, c)) => x = (b * 8 + i) * dx
            /\ (b * 8 + i >= CompW(f, c)) => x = f.w - 1
       /\ \A b \in 0..(McusY(f) * f.comps[c].v - 1), i \in 0..7 :
            LET y == SampleY(f, c, b, i) IN
            /\ y \in 0..(f.h - 1)
            /\ (b * 8 + i < CompH(f, c)) => y = (b * 8 + i) * dy
            /\ (b * 8 + i >= CompH(f, c)) => y = f.h - 1
       /\ CompW(f, c) = Cardinality({x \in 0..(f.w - 1) : x % dx = 0})
       /\ CompH(f, c) = Cardinality({y \in 0..(f.h - 1) : y % dy = 0})
\* the code's block loops of the non-interleaved modes
CodeLoops ==
  \A c \in C : /\ CeilDiv(CeilDiv(f.w, 8), Hmax(f) \div f.comps[c].h) = UnitsX(f, c)
               /\ CeilDiv(CeilDiv(f.h, 8), Vmax(f) \div f.comps[c].v) = UnitsY(f, c)
\* interleaved MCUs of the modes that interleave have at most ten units
TenUnits == (Hmax(f) <= 2 /\ Vmax(f) <= 2) => Len(McuUnits(f, All, 0)) <= 10
=============================================================================
