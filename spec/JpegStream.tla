----------------------------- MODULE JpegStream -----------------------------
(* The stream as a sequence of items and the automaton that accepts exactly    *)
(* the legal ones for a given request W:                                       *)
(*   W = [w, h, comps, prog, scans, restart]                                   *)
(* Items: SOI, APP0, APP, COM, SOF, DQT, DHT, DRI, SOS, MCU, RST, EOI.          *)
(* Accept returns the next state and the set of complaints << property, text >>.*)
(* The automaton accepts every legal order, not just the one the code uses.    *)
EXTENDS Geometry, FiniteSets, TLC

NoFrame == [w |-> 0, h |-> 0, comps |-> << >>]
NoScan  == [cs |-> << >>, ss |-> 0, se |-> 0, mcu |-> 0, total |-> 0, nrst |-> 0]

StreamInit == [ ph |-> "soi",      \* soi, app0, tables, scan, end
                frame |-> NoFrame, sof |-> -1,
                dq |-> {}, dh |-> {},
                dri |-> 0, ndri |-> 0, nscans |-> 0,
                scan |-> NoScan,
                cov |-> << >>,     \* per component: set of coefficients transmitted
                bands |-> << >> ]  \* per component: sequence of << ss, se >>

Complain(cond, tag, text) == IF cond THEN {} ELSE {<< tag, text >>}

\* a restart marker is due before the next MCU
RstDue(st) == /\ st.dri > 0
              /\ st.scan.mcu > 0
              /\ st.scan.mcu < st.scan.total
              /\ st.scan.mcu % st.dri = 0
              /\ st.scan.nrst < st.scan.mcu \div st.dri
ScanDone(st) == st.scan.mcu >= st.scan.total

FrameMatches(fr, W) ==
  /\ fr.w = W.w /\ fr.h = W.h
  /\ Len(fr.comps) = Len(W.comps)
  /\ \A c \in 1..Len(fr.comps) : fr.comps[c].h = W.comps[c].h /\ fr.comps[c].v = W.comps[c].v

SofComplaints(st, it, W) ==
       Complain(st.sof = -1, "C01", "second frame header")
  \cup Complain(st.nscans = 0, "C01", "frame header after a scan")
  \cup Complain(it.sof = (IF W.prog THEN 2 ELSE 0), "C01", "frame type does not match the coding mode")
  \cup Complain(it.prec = 8, "C17", "precision is not 8")
  \cup Complain(it.w = W.w /\ it.h = W.h, "C17", "image size")
  \cup Complain(Len(it.comps) = Len(W.comps), "C17", "number of components")
  \cup Complain(Cardinality({it.comps[c].id : c \in DOMAIN it.comps}) = Len(it.comps), "C17", "component ids not unique")
  \cup Complain(\A c \in DOMAIN it.comps : it.comps[c].h \in 1..4 /\ it.comps[c].v \in 1..4 /\ it.comps[c].q \in 0..3,
                "C01", "illegal component parameters")
  \cup Complain(Len(it.comps) # Len(W.comps) \/
                \A c \in DOMAIN it.comps : it.comps[c].h = W.comps[c].h /\ it.comps[c].v = W.comps[c].v,
                "C17", "sampling factors")

Band(it) == it.ss .. it.se

\* it.cs: component numbers (0 = unknown id), it.td / it.ta: table ids per component
SosComplaints(st, it, W) ==
  LET n == Len(it.cs)
      known == \A i \in 1..n : it.cs[i] \in DOMAIN st.frame.comps
      prog == st.sof = 2
  IN    Complain(st.sof # -1, "C01", "scan before the frame header")
   \cup Complain(n \in 1..4, "C01", "number of scan components")
   \cup Complain(known, "C01", "scan names a component that is not in the frame")
   \cup Complain(\A i, j \in 1..n : i < j => it.cs[i] < it.cs[j] \/ ~known, "C01", "scan components not in frame order")
   \cup (IF ~known THEN {} ELSE
         Complain(n <= 1 \/ (LET RECURSIVE s(_)
                                 s(i) == IF i = 0 THEN 0 ELSE s(i - 1) + st.frame.comps[it.cs[i]].h * st.frame.comps[it.cs[i]].v
                             IN s(n) <= 10), "C01", "more than ten blocks per MCU")
    \cup Complain(\A i \in 1..n : st.frame.comps[it.cs[i]].q \in st.dq, "C01", "quantization table not defined"))
   \cup (IF prog
         THEN      Complain(it.ss \in 0..63 /\ it.se \in it.ss..63, "C01", "empty or illegal spectral selection")
              \cup Complain(it.ss > 0 \/ it.se = 0, "C01", "DC and AC coefficients in one progressive scan")
              \cup Complain(it.ss = 0 \/ n = 1, "C01", "interleaved AC scan")
              \cup Complain(it.ah = 0 /\ it.al = 0, "C07", "successive approximation was not asked for")
              \cup Complain(\A i \in 1..n : it.td[i] \in 0..3 /\ it.ta[i] \in 0..3, "C01", "illegal Huffman table selector")
              \cup Complain(it.ss > 0 \/ \A i \in 1..n : << 0, it.td[i] >> \in st.dh, "C01", "DC Huffman table not defined")
              \cup Complain(it.ss = 0 \/ \A i \in 1..n : << 1, it.ta[i] >> \in st.dh, "C01", "AC Huffman table not defined")
         ELSE      Complain(it.ss = 0 /\ it.se = 63 /\ it.ah = 0 /\ it.al = 0, "C01", "illegal parameters for a baseline scan")
              \cup Complain(\A i \in 1..n : it.td[i] \in 0..1 /\ it.ta[i] \in 0..1, "C01", "more than two Huffman tables in baseline")
              \cup Complain(\A i \in 1..n : << 0, it.td[i] >> \in st.dh, "C01", "DC Huffman table not defined")
              \cup Complain(\A i \in 1..n : << 1, it.ta[i] >> \in st.dh, "C01", "AC Huffman table not defined"))
   \cup (IF ~known \/ st.sof = -1 THEN {} ELSE
         Complain(\A i \in 1..n : st.cov[it.cs[i]] \cap Band(it) = {}, "C07", "coefficients transmitted twice"))
   \cup (IF st.nscans > 0 THEN {} ELSE
         Complain((st.ndri > 0) = (W.restart > 0), "C04", "DRI segment present iff a restart interval is configured")
    \cup Complain(st.ndri = 0 \/ st.dri = W.restart, "C04", "announced restart interval"))

EoiComplaints(st, W) ==
       Complain(st.sof # -1, "C01", "no frame header")
  \cup Complain(st.nscans > 0, "C01", "no scan")
  \cup Complain(\A c \in DOMAIN st.cov : st.cov[c] = 0..63, "C07", "coefficients missing")
  \cup Complain(\A c \in DOMAIN st.bands :
                  IF W.prog
                  THEN /\ Len(st.bands[c]) = W.scans
                       /\ \A i \in 1..Len(st.bands[c]) : (st.bands[c][i] = << 0, 0 >>) = (i = 1)
                  ELSE st.bands[c] = << << 0, 63 >> >>,
                "C07", "number of scans of a component")

R(st, bad) == [st |-> st, bad |-> bad]

InTables(st, what) == Complain(st.ph = "tables", "C01", what)

Accept(st, it, W) ==
  CASE it.k = "SOI" -> R([st EXCEPT !.ph = "app0"], Complain(st.ph = "soi", "C01", "misplaced SOI"))
    [] it.k = "APP0" -> R([st EXCEPT !.ph = "tables"], Complain(st.ph = "app0", "C01", "JFIF header not first"))
    [] it.k \in {"APP", "COM"} -> R(st, InTables(st, "misplaced APP or COM segment"))
    [] it.k = "DQT" -> R([st EXCEPT !.dq = @ \cup it.ids], InTables(st, "misplaced DQT")
                         \cup Complain(it.ids \subseteq 0..3, "C01", "quantization table id"))
    [] it.k = "DHT" -> R([st EXCEPT !.dh = @ \cup it.ids], InTables(st, "misplaced DHT")
                         \cup Complain(\A x \in it.ids : x[1] \in 0..1 /\ x[2] \in 0..3, "C01", "Huffman table class or id"))
    [] it.k = "DRI" -> R([st EXCEPT !.dri = it.n, !.ndri = @ + 1], InTables(st, "misplaced DRI")
                         \cup Complain(st.nscans = 0, "C04", "DRI after the first scan"))
    [] it.k = "SOF" -> R([st EXCEPT !.sof = it.sof,
                                    !.frame = [w |-> it.w, h |-> it.h, comps |-> it.comps],
                                    !.cov = TLCEval([c \in 1..Len(it.comps) |-> {}]),
                                    !.bands = TLCEval([c \in 1..Len(it.comps) |-> << >>])],
                         InTables(st, "misplaced SOF") \cup SofComplaints(st, it, W))
    [] it.k = "SOS" -> LET bad == InTables(st, "misplaced SOS") \cup SosComplaints(st, it, W)
                           dead == st.sof = -1 \/ Len(it.cs) = 0 \/ \E i \in DOMAIN it.cs : it.cs[i] \notin DOMAIN st.frame.comps
                       IN R(IF dead THEN [st EXCEPT !.ph = "end"] ELSE
                            [st EXCEPT !.ph = "scan", !.nscans = @ + 1,
                              !.cov = TLCEval([c \in DOMAIN @ |-> IF \E i \in DOMAIN it.cs : it.cs[i] = c
                                                          THEN @[c] \cup Band(it) ELSE @[c]]),
                              !.bands = TLCEval([c \in DOMAIN @ |-> IF \E i \in DOMAIN it.cs : it.cs[i] = c
                                                            THEN Append(@[c], << it.ss, it.se >>) ELSE @[c]]),
                              !.scan = [cs |-> it.cs, ss |-> it.ss, se |-> it.se, mcu |-> 0,
                                        total |-> NumMcus(st.frame, it.cs), nrst |-> 0]],
                            bad)
    [] it.k = "MCU" -> R([st EXCEPT !.scan.mcu = @ + 1],
                              Complain(st.ph = "scan" /\ ~ScanDone(st), "C02", "more MCUs than the headers imply")
                         \cup Complain(~RstDue(st), "C04", "restart marker missing")
                         \cup Complain("units" \notin DOMAIN it \/ ScanDone(st) \/
                                       it.units = McuUnits(st.frame, st.scan.cs, st.scan.mcu),
                                       "C03", "data units out of order"))
    [] it.k = "RST" -> R([st EXCEPT !.scan.nrst = @ + 1],
                              Complain(st.ph = "scan" /\ RstDue(st), "C04", "restart marker where none belongs")
                         \cup Complain(it.m = st.scan.nrst % 8, "C04", "restart marker number"))
    \* the decoder reports the end of a scan's entropy-coded data
    [] it.k = "SCANEND" -> R([st EXCEPT !.ph = "tables"],
                              Complain(st.ph = "scan" /\ ScanDone(st), "C02", "scan ends early"))
    [] it.k = "EOI" -> R([st EXCEPT !.ph = "end"], InTables(st, "misplaced EOI") \cup EoiComplaints(st, W))
=============================================================================
