------------------------------- MODULE MC_Udp -------------------------------
(* Every history of arrivals, failures, receptions and sends up to a depth, *)
(* from two peers of the same address and one of another.  Fresh = FALSE    *)
(* is the design that writes one host record again and again; TLC must find *)
(* that it breaks the clauses.                                              *)
EXTENDS Udp, Json, IOUtils
CONSTANT Depth, Fresh
Emit == IOEnv.VF_EMIT = "1"
VARIABLES w, mon, bad, h, n
vars == <<w, mon, bad, h, n>>
Peers == {"A", "B", "C"}
Init == w = U0 /\ mon = UdpInit(<<>>) /\ bad = {} /\ h = <<>> /\ n = 1
Do(x, o) == LET r == Judge(mon, {}, <<x.ev>>) IN
            /\ w' = x.w /\ mon' = r.s /\ bad' = r.b /\ h' = Append(h, o)
            /\ (Emit => PrintT("SCN " \o ToJson([ops |-> h'])))
Arr == /\ Len(w.inq) < 2
       /\ \E p \in Peers, rel \in BOOLEAN, z \in BOOLEAN : ~(rel /\ z) /\
            Do(Arrive(w, [from |-> p, d |-> IF z THEN "" ELSE "d" \o ToString(n), n |-> IF z THEN 0 ELSE n, rel |-> rel, seq |-> ToString(n)]),
               [op |-> "arrive", from |-> p, rel |-> rel, empty |-> z])
       /\ n' = n + 1
Rec == \E via \in {"client", "dispatcher"} : Do(RecvU(w, via, Fresh), [op |-> "recv", via |-> via]) /\ UNCHANGED n
Snd == \E via \in {"client", "dispatcher"} :
         /\ \/ \E i \in 1..Len(w.told) : Do(SendU(w, via, i, mon.told[i], "s" \o ToString(n)), [op |-> "send", via |-> via, i |-> i, to |-> mon.told[i]])
            \/ \E p \in {"A", "B"} : Do(SendU(w, via, 0, p, "s" \o ToString(n)), [op |-> "send", via |-> via, i |-> 0, to |-> p])
         /\ n' = n + 1
Flt == \/ ~w.fault /\ Do(Fault(w), [op |-> "fault"]) /\ UNCHANGED n
       \/ w.fault /\ Do(Calm(w), [op |-> "calm"]) /\ UNCHANGED n
Fls == (\E i \in 1..Len(w.circ) : w.circ[i].acks # <<>>) /\ Do(FlushU(w), [op |-> "flush"]) /\ UNCHANGED n
Next == Len(h) < Depth /\ (Arr \/ Rec \/ Snd \/ Flt \/ Fls)
Spec == Init /\ [][Next]_vars
Full == vars
View == <<w, mon, bad, n>>
NoBad == bad = {}
\* the queue of the socket and what the clauses expect never part
Agree == mon.told = Seen(w) /\ Len(mon.inq) = Len(w.inq) /\ mon.circs = {w.circ[i].by : i \in 1..Len(w.circ)}
=============================================================================
