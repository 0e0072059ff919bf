----------------------------- MODULE MC_Together ----------------------------
(* Several encoders in one process.  Each is the abstract encoder of Api, runs *)
(* a program of setter calls and then encodes in a few pieces (row requests    *)
(* and sink writes are the points where others may run).  Encoders share no    *)
(* state, so under every interleaving each of them ends exactly as if it were  *)
(* alone.  Every complete interleaving is printed and replayed in the code by  *)
(* threads that take turns in this order.                                      *)
EXTENDS Api, Json, SequencesExt

CONSTANTS N, Calls, Pieces, Show

Programs == << << [op |-> "progressive", on |-> TRUE], [op |-> "restart", n |-> 3], [op |-> "app", nr |-> 0, data |-> << 1 >>] >>,
               << [op |-> "optimize", on |-> TRUE], [op |-> "sampling", name |-> "F_4_2"], [op |-> "icc", len |-> 5, seed |-> 1] >>,
               << [op |-> "scans", n |-> 65], [op |-> "density", unit |-> 1, x |-> 7, y |-> 8], [op |-> "scans", n |-> 9] >> >>
Prog(i) == SubSeq(Programs[i], 1, Calls)

VARIABLES pc, cfg, hist
vars == << pc, cfg, hist >>
Init == pc = [i \in 1..N |-> 0] /\ cfg = [i \in 1..N |-> NewCfg(10 * i)] /\ hist = << >>
Step(i) ==
  /\ pc[i] < Calls + Pieces
  /\ pc' = [pc EXCEPT ![i] = @ + 1]
  /\ cfg' = IF pc[i] < Calls THEN [cfg EXCEPT ![i] = Apply(@, Prog(i)[pc[i] + 1])[1]] ELSE cfg
  /\ hist' = Append(hist, i - 1)
  /\ (Show /\ \A j \in 1..N : pc'[j] = Calls + Pieces) => PrintT("SCHED " \o ToJson(hist'))
Next == \E i \in 1..N : Step(i)
Spec == Init /\ [][Next]_vars

RECURSIVE Solo(_, _)
Solo(i, n) == IF n = 0 THEN NewCfg(10 * i) ELSE Apply(Solo(i, n - 1), Prog(i)[n])[1]
Independent == \A i \in 1..N : cfg[i] = Solo(i, IF pc[i] < Calls THEN pc[i] ELSE Calls)
=============================================================================
