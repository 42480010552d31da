------------------------------- MODULE MC_Log -------------------------------
(* Two runs of every history up to a depth: the first with every option     *)
(* off, the second with any settings (All: every set of options to begin    *)
(* with; otherwise those a Settings object can be made with), switched at   *)
(* any time.  Leak # "none": TLC must find the runs differing.              *)
EXTENDS Log, Json, IOUtils
CONSTANT Depth, All, Leak
Emit == IOEnv.VF_EMIT = "1"
VARIABLES d, sw, m, bad, hist, n
vars == <<d, sw, m, bad, hist, n>>
Hosts == <<"A", "B">>
Cfg == [hosts |-> Hosts, defer |-> TRUE, hp |-> TRUE, barred |-> <<"StartGroupProposal">>]
S(h, k, rel, inv) == [op |-> "send", host |-> h, name |-> k, v |-> "0", rel |-> rel, invalid |-> inv, retries |-> 0]
R(h, k, rel, seq, acks, ids) == [op |-> "recv", host |-> h, name |-> k, v |-> "0", rel |-> rel, seq |-> seq, acks |-> acks, ids |-> ids, valid |-> TRUE, may |-> rel, bad |-> ""]
P == "StartPingCheck"
U == "UseCircuitCode"
X == "StartGroupProposal"
K == "PacketAck"
Ever(i) == \E j \in 1..Len(hist) : hist[j].op = "sub" /\ hist[j].sub = i
Live(i) == \E j \in 1..Len(d.subs) : d.subs[j].sub = i
Ops == {S("A", P, FALSE, FALSE), S("A", P, TRUE, FALSE), S("B", K, FALSE, FALSE), S("A", U, TRUE, TRUE), S("A", X, FALSE, FALSE), S("N1", P, FALSE, FALSE),
        R("A", P, TRUE, "1", <<>>, <<>>), R("A", U, TRUE, "2", <<"1">>, <<>>), R("B", K, FALSE, "3", <<>>, <<"1">>), R("A", X, TRUE, "4", <<>>, <<>>),
        [R("A", P, TRUE, "5", <<>>, <<>>) EXCEPT !.valid = FALSE, !.bad = "trunc"],
        [op |-> "flush"], [op |-> "reg", name |-> U], [op |-> "set", what |-> "defer", val |-> ~d.defer]}
       \cup {[op |-> "sub", sub |-> i, name |-> P, raises |-> IF i = "p2" THEN "err" ELSE ""] : i \in {j \in {"p1", "p2"} : ~Ever(j)}}
       \cup {[op |-> "unsub", sub |-> i] : i \in {j \in {"p1"} : Live(j)}}
Sets == IF All THEN SUBSET (Options \cup {"spam"}) ELSE {Made(q, s) : q \in BOOLEAN, s \in BOOLEAN}
Quiet2 == {"spam"}
\* the settings of the second run when it began: quiet ones are compared by lines as well
VARIABLE sw0
all == <<d, sw, sw0, m, bad, hist, n>>
Vs == <<[quiet |-> TRUE, plain |-> TRUE], [quiet |-> sw0 = Quiet2, plain |-> sw = sw0]>>
Init == /\ sw \in Sets /\ sw0 = sw /\ d = DInit(Cfg) /\ hist = <<>> /\ n = <<0, 0>>
        /\ m = LogInit([vs |-> <<[quiet |-> TRUE, plain |-> TRUE], [quiet |-> sw0 = Quiet2, plain |-> TRUE]>>]) /\ bad = {}
Step == \E op \in Ops :
  LET r == DOp(d, op)
      a == LogOp({"spam"}, "none", r)
      b == LogOp(sw, Leak, r)
      e == [op |-> "did", what |-> op.op, obs |-> <<a.ev, b.ev>>]
      k == <<n[1] + a.lines, n[2] + b.lines>>
      m2 == LogStep(m, e)
  IN /\ d' = r[1] /\ m' = m2 /\ n' = k /\ UNCHANGED <<sw, sw0>>
     /\ bad' = LogBad(m, e) \cup LogBad([m2 EXCEPT !.vs = Vs], [op |-> "lines", n |-> k])
     /\ hist' = Append(hist, op)
     /\ (Emit => PrintT("SCN " \o ToJson(hist')))
Flip == \E o \in Options \cup {"spam"} :
  /\ sw' = (sw \ {o}) \cup ({o} \ sw)
  /\ hist' = Append(hist, [op |-> "switch", o |-> o])
  /\ UNCHANGED <<d, sw0, m, n>> /\ bad' = {}
Next == Len(hist) < Depth /\ (Step \/ Flip)
Spec == Init /\ [][Next]_all
View == <<d, sw, sw0, m, bad, n, hist>>
States == <<d, sw, sw0, m, bad, n, Len(hist)>>
NoBad == bad = {}
\* new settings that are quiet have nothing on, whatever else was asked for
QuietMade == \A s \in BOOLEAN : Made(TRUE, s) \cap Options = {}
\* quiet or not, every line counted is a line of something that was done
Lines == sw0 = Quiet2 /\ sw = sw0 /\ (\A i \in 1..Len(hist) : hist[i].op # "switch") => n[2] = n[1]
=============================================================================
