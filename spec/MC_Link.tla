------------------------------ MODULE MC_Link ------------------------------
(* Two endpoints, the network between them, and the monitor beside them.    *)
(* VF_MODE = "walk": every history of up to Depth operations, printed as    *)
(* scenarios.  VF_MODE = "graph": every reachable state with up to Sends    *)
(* sends by each side, no bound on the length of a history; the network may *)
(* become reliable (stable) at any point, after which both sides keep       *)
(* flushing (fairness) and everything must come to rest.                    *)
EXTENDS Link, Json, IOUtils, SequencesExt
CONSTANTS Depth, Sends, Flight, Dups
Emit == IOEnv.VF_EMIT = "1"
Walk == IOEnv.VF_MODE = "walk"
P == {"P", "Q"}
Peer(e) == IF e = "P" THEN "Q" ELSE "P"
VARIABLES ep, net, mon, bad, stable, sends, dups, h
vars == <<ep, net, mon, bad, stable, sends, dups, h>>

Init == /\ ep = [e \in P |-> E0] /\ net = <<>> /\ mon = LinkInit(<<>>) /\ bad = {} /\ stable = FALSE
        /\ sends = [e \in P |-> 0] /\ dups = 0 /\ h = <<>>

Outst(x) == [e \in P |-> [p \in P |-> IF p = Peer(e) THEN SetToSeq(x[e].outst) ELSE <<>>]]
None == [src |-> "", dst |-> "", seq |-> 0, rel |-> FALSE, acks |-> <<>>, ids |-> <<>>]
Judge(op, d, out) == LET e == [op |-> op, dg |-> d, out |-> out, outst |-> Outst(ep'), err |-> "", tail |-> 0] IN
                     bad' = LinkBad(mon, e) /\ mon' = LinkStep(mon, e)
Note(o) == /\ h' = IF Walk THEN Append(h, o) ELSE h
           /\ (Emit => PrintT("SCN " \o ToJson(h')))
Room == IF Walk THEN Len(h) < Depth ELSE TRUE

Send(e, rel) == LET r == DSend(ep[e], e, Peer(e), rel) IN
  /\ sends[e] < Sends /\ Len(net) < Flight /\ ~stable
  /\ ep' = [ep EXCEPT ![e] = r.st] /\ net' = net \o r.out /\ sends' = [sends EXCEPT ![e] = @ + 1]
  /\ Judge("send", None, r.out) /\ Note([op |-> "send", e |-> e, rel |-> rel]) /\ UNCHANGED <<stable, dups>>
Flush(e) == LET r == DFlush(ep[e], e, Peer(e)) IN
  /\ (ep[e].pend # <<>> \/ Walk) /\ (stable \/ Len(net) < Flight)
  /\ ep' = [ep EXCEPT ![e] = r.st] /\ net' = net \o r.out
  /\ Judge("flush", None, r.out) /\ Note([op |-> "flush", e |-> e]) /\ UNCHANGED <<stable, sends, dups>>
Deliver(i, keep) == LET d == net[i] IN
  /\ ~(keep /\ (stable \/ dups = Dups)) /\ dups' = IF keep THEN dups + 1 ELSE dups
  /\ ep' = [ep EXCEPT ![d.dst] = DRecv(@, d)] /\ net' = IF keep THEN net ELSE RemoveAt(net, i)
  /\ Judge("deliver", d, <<>>) /\ Note([op |-> "deliver", i |-> i, keep |-> keep]) /\ UNCHANGED <<stable, sends>>
Drop(i) == /\ ~stable /\ UNCHANGED ep /\ net' = RemoveAt(net, i)
           /\ Judge("drop", net[i], <<>>) /\ Note([op |-> "drop", i |-> i]) /\ UNCHANGED <<stable, sends, dups>>
Calm == ~Walk /\ ~stable /\ stable' = TRUE /\ UNCHANGED <<ep, net, mon, bad, sends, dups, h>>
DeliverSome == net # <<>> /\ Deliver(1, FALSE)

Next == Room /\ \/ \E e \in P, rel \in BOOLEAN : Send(e, rel)
                \/ \E e \in P : Flush(e)
                \/ \E i \in 1..Len(net), keep \in BOOLEAN : Deliver(i, keep)
                \/ \E i \in 1..Len(net) : Drop(i)
                \/ Calm
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A e \in P : WF_vars(stable /\ Flush(e)) /\ WF_vars(stable /\ DeliverSome)
View == IF Walk THEN vars ELSE <<ep, net, mon, bad, stable, sends, dups>>

NoBad == bad = {}
AtRest == net = <<>> /\ \A e \in P : ep[e].pend = <<>>
AllAcked == \A x \in (mon.sent \cap mon.rcvd) \ mon.lost : x[3] \notin ep[x[1]].outst
RestAcked == AtRest => AllAcked
Settles == stable ~> (AtRest /\ AllAcked)
StaysSettled == [](stable /\ AtRest => [](AtRest))
=============================================================================
