------------------------------- MODULE MC_Api -------------------------------
(* All histories of configuration calls up to a length, over representative    *)
(* arguments (valid, boundary and invalid).  The state is the abstract encoder *)
(* of Api; the invariants are C10 and C13 on that level.  With Show every      *)
(* history is printed and the checks replay it in the real encoder, comparing  *)
(* every result, every getter and the stream written at the end (StreamTrace). *)
EXTENDS Api, Json, FiniteSets, SequencesExt

CONSTANTS MaxLen, Show, Qualities

D3(k, u, x, y) == [op |-> "density", unit |-> u, x |-> x, y |-> y]
Ops ==
  { D3(0, 0, 0, 0), D3(0, 1, 300, 72), D3(0, 2, 1, 65535),
    [op |-> "sampling", name |-> "F_1_1"], [op |-> "sampling", name |-> "R_4_2_0"],
    [op |-> "sampling", name |-> "F_4_1"], [op |-> "sampling", name |-> "F_1_2"],
    [op |-> "factors", h |-> 2, v |-> 1], [op |-> "factors", h |-> 3, v |-> 1],
    [op |-> "qtables", luma |-> [k |-> "Flat", v |-> << >>], chroma |-> DefaultTable],
    [op |-> "qtables", luma |-> [k |-> "Custom", v |-> << 0, 300, 7 >>], chroma |-> [k |-> "ImageMagick", v |-> << >>]],
    [op |-> "progressive", on |-> TRUE], [op |-> "progressive", on |-> FALSE],
    [op |-> "scans", n |-> 2], [op |-> "scans", n |-> 10], [op |-> "scans", n |-> 64],
    [op |-> "scans", n |-> 1], [op |-> "scans", n |-> 65], [op |-> "scans", n |-> 0],
    [op |-> "restart", n |-> 0], [op |-> "restart", n |-> 1], [op |-> "restart", n |-> 65535],
    [op |-> "optimize", on |-> TRUE], [op |-> "optimize", on |-> FALSE],
    [op |-> "app", nr |-> 1, data |-> << 1, 2, 3 >>], [op |-> "app", nr |-> 15, data |-> << >>],
    [op |-> "app", nr |-> 0, data |-> << 9 >>], [op |-> "app", nr |-> 16, data |-> << 9 >>],
    [op |-> "app", nr |-> 2, len |-> 65534, seed |-> 1],
    [op |-> "icc", len |-> 10, seed |-> 3] }

VARIABLES q, hist, cfg, res
vars == << q, hist, cfg, res >>

Init == q \in Qualities /\ hist = << >> /\ cfg = NewCfg(q) /\ res = Ok
Call == /\ Len(hist) < MaxLen
        /\ \E o \in Ops : LET r == Apply(cfg, o) IN
             /\ hist' = Append(hist, o) /\ cfg' = r[1] /\ res' = r[2]
             /\ (Show /\ Len(hist') = MaxLen) => PrintT("HIST " \o ToJson([q |-> q, ops |-> hist']))
        /\ q' = q
Next == Call
Spec == Init /\ [][Next]_vars

LastOf(P(_), d) == LET S == {i \in DOMAIN hist : P(hist[i])} IN
                 IF S = {} THEN d ELSE hist[CHOOSE i \in S : \A j \in S : j <= i]
None == [op |-> "none"]
\* C13: every setting is the argument of the last accepted call that sets it
LastWins ==
  LET dn == LastOf(LAMBDA o : o.op = "density", None)
      sm == LastOf(LAMBDA o : o.op = "sampling" \/ (o.op = "factors" /\ o.h \in {1, 2, 4} /\ o.v \in {1, 2, 4}), None)
      qt == LastOf(LAMBDA o : o.op = "qtables", None)
      pr == LastOf(LAMBDA o : o.op = "progressive" \/ (o.op = "scans" /\ o.n >= 2 /\ o.n <= 64), None)
      rs == LastOf(LAMBDA o : o.op = "restart", None)
      op == LastOf(LAMBDA o : o.op = "optimize", None)
  IN /\ cfg.density = IF dn = None THEN << 0, 0, 0 >> ELSE << dn.unit, dn.x, dn.y >>
     /\ cfg.sampling = CASE sm = None -> (IF q >= 90 THEN "F_1_1" ELSE "F_2_2")
                         [] sm.op = "sampling" -> sm.name
                         [] OTHER -> "F_2_1"
     /\ << cfg.ql, cfg.qc >> = IF qt = None THEN << DefaultTable, DefaultTable >> ELSE << qt.luma, qt.chroma >>
     /\ cfg.scans = CASE pr = None -> 0
                      [] pr.op = "scans" -> pr.n
                      [] OTHER -> IF pr.on THEN 4 ELSE 0
     /\ cfg.restart = IF rs = None THEN 0 ELSE rs.n
     /\ cfg.optimize = IF op = None THEN FALSE ELSE op.on
\* C09: segments are the accepted ones, in order
SegsInOrder ==
  LET a == SelectSeq(hist, LAMBDA o : (o.op = "app" /\ o.nr >= 1 /\ o.nr <= 15 /\ PLen(o) <= 65533) \/ o.op = "icc")
  IN /\ Len(a) = Len(cfg.segs)
     /\ \A i \in DOMAIN a : cfg.segs[i].o = a[i]
\* C10: what is refused has no effect
RefusedIsNoOp ==
  \A o \in Ops : LET r == Apply(cfg, o) IN r[2].k # "ok" => r[1] = cfg
=============================================================================
