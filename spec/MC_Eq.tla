------------------------------- MODULE MC_Eq -------------------------------
(* Every sequence of up to Depth turns of the loop, responses of every kind *)
(* with batches of events of several shapes, and a stop anywhere.           *)
EXTENDS Eq, Json, IOUtils
CONSTANT Depth
Emit == IOEnv.VF_EMIT = "1"
VARIABLES w, mon, bad, h, n, phase
vars == <<w, mon, bad, h, n, phase>>

F(f, v) == [f |-> f, v |-> v]
One == <<F("Alpha", "i1"), F("Beta", "i2")>>
Two == <<F("Alpha", "i3")>>
Ev(k) == CASE k = "t1" -> [name |-> "StartPingCheck", t |-> TRUE, body |-> <<[b |-> "PingID", is |-> <<One>>]>>]
           [] k = "t2" -> [name |-> "RequestMultipleObjects", t |-> TRUE, body |-> <<[b |-> "AgentData", is |-> <<Two>>], [b |-> "ObjectData", is |-> <<One, Two, One>>]>>]
           [] k = "t0" -> [name |-> "PacketAck", t |-> TRUE, body |-> <<[b |-> "Packets", is |-> <<>>]>>]
           [] k = "x" -> [name |-> "ExtraEvent", t |-> FALSE, body |-> One]
           [] k = "raise" -> [name |-> "Raiser", t |-> FALSE, body |-> Two]
           [] k = "unsub" -> [name |-> "NobodyListens", t |-> FALSE, body |-> Two]
           [] OTHER -> [name |-> "Stopper", t |-> FALSE, body |-> <<>>]
Batches == {<<>>, <<"t1">>, <<"x", "t2">>, <<"raise", "x">>, <<"x", "x">>, <<"stop", "t1">>, <<"unsub", "t0", "x">>}
Results == {[kind |-> "ok", id |-> ToString(n), b |-> b] : b \in Batches}
           \cup {[kind |-> "err", id |-> "", b |-> <<>>], [kind |-> "none", id |-> "", b |-> <<>>],
                 [kind |-> "bad", id |-> "", b |-> <<"t1">>], [kind |-> "bad", id |-> ToString(n), b |-> <<"t1">>]}
Evs(b) == [i \in 1..Len(b) |-> Ev(b[i])]
Subs == <<"StartPingCheck", "RequestMultipleObjects", "PacketAck", "ExtraEvent", "Raiser", "Stopper">>

Init == /\ w \in {W0(y) : y \in BOOLEAN} /\ mon = EqInit([subs |-> Subs]) /\ bad = {} /\ h = <<>> /\ n = 1 /\ phase = "free"
Dirty(x) == [x EXCEPT !.ev = SelectSeq(@, LAMBDA e : ~(e.op = "hand" /\ e.name \notin Rng(Subs)))]
Do(x, o) == LET r == Judge(mon, {}, Dirty(x).ev) IN
            /\ w' = [x EXCEPT !.ev = <<>>] /\ mon' = r.s /\ bad' = r.b /\ h' = Append(h, o)
            /\ (Emit => PrintT("SCN " \o ToJson([yp |-> w.yp, ops |-> h'])))
            /\ UNCHANGED phase
TakesResult == w.pc = "post" \/ (w.pc = "sleep" /\ ~w.yp)
Turn == \/ w.pc # "dead" /\ ~TakesResult /\ Do(Step(w, <<>>), [op |-> "run"]) /\ n' = n
        \/ TakesResult /\ \E r \in Results : Do(Step(w, [kind |-> r.kind, id |-> r.id, evs |-> Evs(r.b)]), [op |-> "run", kind |-> r.kind, id |-> r.id, b |-> r.b])
                                             /\ n' = n + 1
Stop == ~w.stp /\ Do(DStop(w), [op |-> "stop"]) /\ n' = n
RECURSIVE Turns(_, _)
Turns(x, k) == IF k = 0 \/ x.pc = "dead" THEN x ELSE Turns(Step(x, [kind |-> "ok", id |-> "99", evs |-> <<>>]), k - 1)
Mark(x, es, p) == LET r == Judge(mon, {}, es) IN w' = [x EXCEPT !.ev = <<>>] /\ mon' = r.s /\ bad' = r.b /\ phase' = p /\ UNCHANGED <<h, n>>
Live == phase = "free" /\ ~w.stp /\ LET x == Turns(w, 6) IN Mark(x, <<[op |-> "fair"]>> \o x.ev \o <<[op |-> "live"]>>, "live")
Halt == phase = "live" /\ LET x == DStop(w) IN Mark(x, x.ev, "stopped")
End == (phase = "stopped" \/ (phase = "free" /\ w.stp)) /\ LET x == Turns(w, 6) IN Mark(x, x.ev \o <<[op |-> "end", kept |-> TRUE]>>, "ended")
Next == \/ phase = "free" /\ Len(h) < Depth /\ (Turn \/ Stop)
        \/ Live \/ Halt \/ End
Spec == Init /\ [][Next]_vars
View == <<w, mon, bad, phase, n>>
Full == vars
NoBad == bad = {}
=============================================================================
