------------------------------- MODULE Source -------------------------------
(* The protocol of a user-written image source (trait ImageBuffer): which rows *)
(* it may be asked for, and what may follow when it panics.  Shared by the     *)
(* model MC_Encoder and the trace specification CallbackTrace.                 *)
EXTENDS Integers

\* rows: how many of the image's rows have been delivered
SourceInit == [rows |-> 0, failed |-> FALSE]

\* the next row, or the same again (rows below the image repeat its last one)
MayAsk(s, y, h) == y \in 0..(h - 1) /\ y \in {s.rows - 1, s.rows}
SourceStep(s, y, out) ==
  IF out < 0 THEN [s EXCEPT !.failed = TRUE]
  ELSE [s EXCEPT !.rows = IF y = s.rows THEN @ + 1 ELSE @]

\* rows of the image needed for the data unit (ux, uy) of a component with vertical
\* factor v, when the largest vertical factor is vmax
RowsFor(uy, v, vmax, h) == LET n == (uy + 1) * 8 * (vmax \div v) IN IF n > h THEN h ELSE n
=============================================================================
