----------------------------- MODULE ColorTrace -----------------------------
(* C18: recorded values of rgb_to_ycbcr and cmyk_to_ycck against the JFIF      *)
(* equations.  Record: [id, rows: << <<r, g>>, ... >>, out: packed results for  *)
(* b = 0..255 of every row, cmyk: << <<c,m,y,k>>, ... >>, cout: results].       *)
EXTENDS Color, Sequences, TLC, Json, IOUtils

CONSTANT Check
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, i, ph, bad
vars == << tid, i, ph, bad >>
T == Trace[tid]

Init == tid \in 1..Len(Trace) /\ i = 1 /\ ph = "rgb" /\ bad = {}

Packed(r, g, b, x) == ColorOK(r, g, b, x \div 65536, (x \div 256) % 256, x % 256)

\* one row: 256 colours
Row ==
  /\ ph = "rgb" /\ i <= Len(T.rows)
  /\ LET r == T.rows[i][1]
         g == T.rows[i][2]
         o == (i - 1) * 256 + 1
         out == T.out
         W == {b \in 0..255 : ~Packed(r, g, b, out[o + b])}
     IN bad' = IF W = {} THEN bad ELSE bad \cup {<< "C18", << "rgb", r, g, CHOOSE b \in W : TRUE >>, out[o + (CHOOSE b \in W : TRUE)] >>}
  /\ i' = i + 1 /\ UNCHANGED << tid, ph >>

Turn == ph = "rgb" /\ i > Len(T.rows) /\ ph' = "cmyk" /\ i' = 1 /\ UNCHANGED << tid, bad >>

Cmyk ==
  /\ ph = "cmyk" /\ i <= Len(T.cmyk)
  /\ LET p == T.cmyk[i]
         x == T.cout[i]
     IN bad' = IF ColorOK(p[1], p[2], p[3], x[1], x[2], x[3]) /\ x[4] = 255 - p[4] THEN bad
               ELSE bad \cup {<< "C18", << "cmyk", p >>, x >>}
  /\ i' = i + 1 /\ UNCHANGED << tid, ph >>

Finish ==
  /\ ph = "cmyk" /\ i > Len(T.cmyk)
  /\ PrintT("END " \o T.id \o " done 0 0 " \o ToString(bad))
  /\ ph' = "end" /\ UNCHANGED << tid, i, bad >>

Next == Row \/ Turn \/ Cmyk \/ Finish
Spec == Init /\ [][Next]_vars
View == << tid, i, ph >>
Holds == bad = {}
Short == [id |-> T.id, step |-> i, complaints |-> bad]
=============================================================================
