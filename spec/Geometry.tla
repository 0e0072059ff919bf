------------------------------ MODULE Geometry ------------------------------
(* Components, sampling, data units and MCUs (T.81 A.1 and A.2).               *)
EXTENDS JpegMath

\* A frame: [w, h, comps: sequence of [id, h, v, q]]
Hmax(f) == LET RECURSIVE m(_) m(i) == IF i = 0 THEN 1 ELSE Max2(f.comps[i].h, m(i - 1)) IN m(Len(f.comps))
Vmax(f) == LET RECURSIVE m(_) m(i) == IF i = 0 THEN 1 ELSE Max2(f.comps[i].v, m(i - 1)) IN m(Len(f.comps))

\* size of a component in samples and in data units
CompW(f, c) == CeilDiv(f.w * f.comps[c].h, Hmax(f))
CompH(f, c) == CeilDiv(f.h * f.comps[c].v, Vmax(f))
UnitsX(f, c) == CeilDiv(CompW(f, c), 8)
UnitsY(f, c) == CeilDiv(CompH(f, c), 8)

McusX(f) == CeilDiv(f.w, 8 * Hmax(f))
McusY(f) == CeilDiv(f.h, 8 * Vmax(f))

\* cs: sequence of component numbers of a scan
NumMcus(f, cs) == IF Len(cs) = 1 THEN UnitsX(f, cs[1]) * UnitsY(f, cs[1])
                  ELSE McusX(f) * McusY(f)

\* data units << component, column, row >> of MCU m (0-based), in coding order
McuUnits(f, cs, m) ==
  IF Len(cs) = 1
  THEN LET nx == UnitsX(f, cs[1]) IN << << cs[1], m % nx, m \div nx >> >>
  ELSE LET nx == McusX(f)
           mx == m % nx
           my == m \div nx
           of(c) == [i \in 1..(f.comps[c].h * f.comps[c].v) |->
                       << c, mx * f.comps[c].h + ((i - 1) % f.comps[c].h),
                             my * f.comps[c].v + ((i - 1) \div f.comps[c].h) >>]
           RECURSIVE cat(_)
           cat(k) == IF k > Len(cs) THEN << >> ELSE of(cs[k]) \o cat(k + 1)
       IN cat(1)

\* picture position of sample (i, j) of data unit (bx, by) of component c:
\* every (Hmax/H)-th column and (Vmax/V)-th row, clamped to the last column and row
SampleX(f, c, bx, i) == Min2((bx * 8 + i) * (Hmax(f) \div f.comps[c].h), f.w - 1)
SampleY(f, c, by, j) == Min2((by * 8 + j) * (Vmax(f) \div f.comps[c].v), f.h - 1)

\* the component table the configuration asks for: factors and whether it is luma-like
ExpComps(jt, fac) ==
  LET full(l) == [h |-> fac[1], v |-> fac[2], luma |-> l]
      one(l)  == [h |-> 1, v |-> 1, luma |-> l]
  IN CASE jt = "Luma"  -> << one(TRUE) >>
       [] jt = "Ycbcr" -> << full(TRUE), one(FALSE), one(FALSE) >>
       [] jt = "Cmyk"  -> << one(FALSE), one(FALSE), one(FALSE), full(TRUE) >>
       [] jt = "Ycck"  -> << full(TRUE), one(FALSE), one(FALSE), full(TRUE) >>
=============================================================================
