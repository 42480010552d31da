------------------------------ MODULE MC_Net ------------------------------
(* Exhaustive exploration of the design against the monitor, for several   *)
(* vocabularies of operations (VF_OPS), and generation of one scenario per *)
(* transition.                                                             *)
EXTENDS Net, Json, IOUtils

CONSTANT Depth
Vocab == IOEnv.VF_OPS
Emit == IOEnv.VF_EMIT = "1"

VARIABLES d, m, bad, hist

Hosts == <<"A", "B">>
Cfg == [hosts |-> Hosts, defer |-> TRUE, hp |-> TRUE, barred |-> <<"StartGroupProposal">>]

S(h, n, rel, retries) == [op |-> "send", host |-> h, name |-> n, v |-> "0", rel |-> rel, invalid |-> FALSE, retries |-> retries]
Inv(h, n, rel) == [op |-> "send", host |-> h, name |-> n, v |-> "0", rel |-> rel, invalid |-> TRUE, retries |-> 0]
R(h, n, rel, seq, acks, ids) == [op |-> "recv", host |-> h, name |-> n, v |-> "0", rel |-> rel, seq |-> seq,
                                 acks |-> acks, ids |-> ids, valid |-> TRUE, may |-> rel, bad |-> ""]
Rbad(h, n, rel, seq, acks, ids, b) == [R(h, n, rel, seq, acks, ids) EXCEPT !.valid = FALSE, !.bad = b]
Flush == [op |-> "flush"]
Trust(h, b) == [op |-> "trust", host |-> h, val |-> b]
Forget(h) == [op |-> "forget", host |-> h]
Reg(n) == [op |-> "reg", name |-> n]
Sub(i, n, r) == [op |-> "sub", sub |-> i, name |-> n, raises |-> r]
Unsub(i) == [op |-> "unsub", sub |-> i]
Set(w, b) == [op |-> "set", what |-> w, val |-> b]

HS == {"A", "B"}
P == "StartPingCheck"
U == "UseCircuitCode"
X == "StartGroupProposal"
K == "PacketAck"
None == <<>>
Had(i) == \E j \in 1..Len(m.subs) : m.subs[j].sub = i
Ever(i) == \E j \in 1..Len(hist) : hist[j].op = "sub" /\ hist[j].sub = i

OpsOf(v) ==
  CASE v = "seq" -> UNION {{S(h, P, FALSE, 0), S(h, U, TRUE, 0), Inv(h, P, FALSE), R(h, U, TRUE, "1", None, None)} : h \in HS}
                    \cup {S("N1", P, FALSE, 0), S("N4", P, TRUE, 0), S("A", X, FALSE, 0), Flush}
    [] v = "rel" -> UNION {{S(h, P, TRUE, 0), S(h, P, FALSE, 0), R(h, K, FALSE, "1", None, <<"1">>), R(h, K, TRUE, "1", None, <<"2", "1">>),
                            R(h, U, FALSE, "1", <<"1">>, None), R(h, P, FALSE, "2", <<"2", "9">>, None)} : h \in HS} \cup {Sub("p", P, "")}
    [] v = "acks" -> UNION {{R(h, P, TRUE, "1", None, None), R(h, U, TRUE, "2", None, None), R(h, U, FALSE, "2", None, None),
                             R(h, X, TRUE, "3", None, None), S(h, U, FALSE, 0)} : h \in HS} \cup {Flush, Sub("p", P, "")}
    [] v = "piggy" -> UNION {{R(h, U, TRUE, "1", None, None), R(h, P, TRUE, "2", <<"1">>, None), S(h, P, FALSE, 0), S(h, U, TRUE, 0)} : h \in HS}
                     \cup {Flush, Set("defer", FALSE)}
    [] v = "trust" -> UNION {{R(h, P, FALSE, "1", None, None), R(h, P, TRUE, "2", <<"1">>, None), R(h, K, FALSE, "3", None, <<"1">>),
                              R(h, U, FALSE, "4", None, None), Trust(h, ~m.trust[h])} : h \in HS} \cup {S("A", P, TRUE, 0), Set("defer", FALSE)}
    [] v = "deliver" -> {R("A", P, FALSE, "1", None, None), R("A", P, TRUE, "2", None, None), R("B", U, FALSE, "1", None, None),
                         R("A", X, FALSE, "4", None, None), Reg(U), Set("defer", ~m.defer), Set("hp", ~m.hp)}
                     \cup {Sub(i, IF i = "u1" THEN U ELSE IF i = "x1" THEN X ELSE P, IF i = "p3" THEN "key" ELSE "") : i \in {j \in {"p1", "p2", "p3", "u1", "x1"} : ~Ever(j)}}
                     \cup {Unsub(i) : i \in {j \in {"p1", "p3"} : Had(j)}}
    [] v = "reject" -> {Rbad("A", P, TRUE, "5", None, None, "trunc"), Rbad("A", P, TRUE, "6", <<"1">>, None, "trunc"), Rbad("A", K, FALSE, "7", None, <<"1">>, "trunc"),
                        Rbad("B", P, TRUE, "5", None, None, "unknown"), Rbad("A", P, FALSE, "5", None, None, "short"),
                        Rbad("A", P, TRUE, "8", None, None, "acks"), R("A", U, TRUE, "1", None, None), R("B", P, TRUE, "2", <<"1">>, None),
                        S("A", P, TRUE, 0), S("B", P, TRUE, 0), Flush, Sub("p", P, ""), Sub("q", P, "err")}
    [] v = "barred" -> UNION {{R(h, X, TRUE, "1", None, None), R(h, X, FALSE, "2", None, None), R(h, P, TRUE, "3", None, None),
                               S(h, X, FALSE, 0), S(h, X, TRUE, 0), S(h, P, FALSE, 0)} : h \in HS} \cup {Flush, Sub("x", X, ""), Set("defer", FALSE)}
    [] v = "resend" -> UNION {{S(h, P, TRUE, 2), S(h, P, TRUE, 1), S(h, P, FALSE, 0), R(h, K, FALSE, "1", None, <<"1">>), R(h, U, TRUE, "2", <<"2">>, None)} : h \in HS} \cup {Flush, S("A", X, TRUE, 1)}
    [] v = "forget" -> UNION {{S(h, P, TRUE, 1), S(h, U, FALSE, 0), R(h, U, TRUE, "1", None, None), R(h, K, FALSE, "2", None, <<"1">>), Forget(h)} : h \in HS}
                       \cup {Flush, Trust("A", TRUE), Inv("B", P, FALSE), Rbad("A", P, TRUE, "5", None, None, "trunc")}
    [] OTHER -> {}

Usable(op) == /\ (op.op = "sub" => ~Ever(op.sub))
              /\ Len(hist) < Depth

Init == d = DInit(Cfg) /\ m = NetInit(Cfg) /\ bad = {} /\ hist = <<>>

Next == \E op \in OpsOf(Vocab) :
  /\ Usable(op)
  /\ LET r == DOp(d, op) IN
       /\ d' = r[1]
       /\ m' = NetStep(m, r[2])
       /\ bad' = NetBad(m, r[2])
  /\ hist' = Append(hist, op)
  /\ (Emit => PrintT("SCN " \o ToJson(hist')))

Spec == Init /\ [][Next]_<<d, m, bad, hist>>
View == <<d, m, bad>>

DesignOk == bad = {}
\* facts about the design itself
CountOk == \A h \in d.hosts : d.count[h] = Cardinality(d.unacked[h])
AcksOnlyReceived == \A h \in d.hosts : Rng(d.acks[h]) \subseteq m.rcvd[h]
NumbersUsed == \A h \in d.hosts : \A x \in d.unacked[h] : \E n \in 1..d.last[h] : x = ToString(n)
KnownOk == \A h \in d.hosts : ~d.known[h] => d.last[h] = 0 /\ d.acks[h] = <<>> /\ d.unacked[h] = {} /\ ~d.trusted[h]
OutstAgree == \A h \in d.hosts : m.outst[h] = d.unacked[h]
=============================================================================
