------------------------------- MODULE MC_Mgr -------------------------------
(* Every interleaving, at the granularity of yields, of up to Depth steps:  *)
(* the application's calls, datagrams arriving, turns of the two loops; then *)
(* turns in fair order to the "live" mark, a stop if there was none, and     *)
(* turns in fair order to the "end" mark.  VF_OPS narrows the vocabulary.    *)
EXTENDS Mgr, Json, IOUtils
CONSTANT Depth
Emit == IOEnv.VF_EMIT = "1"
Voc == IOEnv.VF_OPS
VARIABLES w, mon, bad, h, phase
vars == <<w, mon, bad, h, phase>>

Cfgs == IF Voc = "queue" THEN {[eq |-> FALSE, eqon |-> TRUE, yr |-> r, ys |-> s, yp |-> FALSE] : r, s \in BOOLEAN}
        ELSE IF Voc = "bad" THEN {[eq |-> FALSE, eqon |-> TRUE, yr |-> FALSE, ys |-> s, yp |-> FALSE] : s \in BOOLEAN}
        ELSE {c \in [eq : BOOLEAN, eqon : BOOLEAN, yr : BOOLEAN, ys : BOOLEAN, yp : BOOLEAN] : (c.yp => c.eq /\ c.eqon) /\ (~c.eq => c.eqon)}
Init == /\ \E c \in Cfgs : w = W0(c) /\ mon = MgrInit(c)
        /\ bad = {} /\ h = <<>> /\ phase = "free"

\* takes the events of a step out of the world and judges them
Do(x, o) == LET r == Judge(mon, {}, x.ev) IN
            /\ w' = [x EXCEPT !.ev = <<>>] /\ mon' = r.s /\ bad' = r.b
            /\ h' = IF phase = "free" THEN Append(h, o) ELSE h
            /\ (Emit /\ phase = "free" => PrintT("SCN " \o ToJson([cfg |-> w.c, ops |-> h'])))
            /\ UNCHANGED phase

Kinds == IF Voc = "queue" THEN {"plain", "enq", "now"} ELSE IF Voc = "bad" THEN {"plain", "raise", "bad"} ELSE {"plain", "stop"}
Rels == IF Voc = "bad" THEN BOOLEAN ELSE {TRUE}
Froms == IF Voc = "bad" THEN {"A", "B"} ELSE {"A"}
Dg(k, hst, r) == [kind |-> k, host |-> hst, seq |-> w.n + 1, rel |-> r]
Arrive(d) == LET x == [w EXCEPT !.inbox = Append(@, d), !.n = @ + 1] IN Len(w.inbox) < 3 /\ Do(x, [op |-> "arrive", kind |-> d.kind, host |-> d.host, rel |-> d.rel])
App ==
  \/ ~w.started /\ Do(DStart(w), [op |-> "start"])
  \/ w.started /\ w.run /\ Voc # "bad" /\ \E rel \in BOOLEAN, now \in BOOLEAN, ok \in (IF Voc = "queue" THEN {TRUE, FALSE} ELSE {TRUE}) :
        (Voc = "queue" \/ rel) /\ (ok \/ ~rel) /\ Len(w.q) < 4 /\ Do(DEnq(w, rel, now, ok), [op |-> "enq", rel |-> rel, now |-> now, ok |-> ok])
  \/ w.started /\ w.run /\ Voc = "queue" /\ w.mk # <<>> /\ Len(w.q) < 4 /\ \E rel \in BOOLEAN, now \in BOOLEAN :
        Do(DAgain(w, rel, now), [op |-> "enq", rel |-> rel, now |-> now, ok |-> w.mk[1].ok, again |-> 1])
  \/ w.started /\ \E k \in Kinds, hst \in Froms, r \in Rels : Arrive(Dg(k, hst, r))
  \/ w.started /\ w.run /\ Voc # "bad" /\ Do(DStop(w), [op |-> "stop"])
Turn ==
  \/ w.L \notin {"none", "dead"} /\ Do(LStep(w), [op |-> "run", who |-> "L"])
  \/ w.E \notin {"none", "dead"} /\ \E res \in {"id", "err"} : Do(EStep(w, res), [op |-> "run", who |-> "E", res |-> res])

\* the closing phases are one long step each: fair turns
RECURSIVE Turns(_, _)
Turns(x, k) == IF k = 0 THEN x
               ELSE LET a == IF x.L \in {"none", "dead"} THEN x ELSE LStep(x)
                        b == IF a.E \in {"none", "dead"} THEN a ELSE EStep(a, "id")
                    IN Turns(b, k - 1)
Alive(x) == (IF x.L \in {"none", "dead"} THEN 0 ELSE 1) + (IF x.E \in {"none", "dead"} THEN 0 ELSE 1)
Mark(x, es, p) == LET r == Judge(mon, {}, es) IN w' = [x EXCEPT !.ev = <<>>] /\ mon' = r.s /\ bad' = r.b /\ phase' = p /\ UNCHANGED h
Live == /\ phase = "free" /\ w.started /\ w.run
        /\ LET x == Turns(w, 24) IN Mark(x, <<[op |-> "fair"]>> \o x.ev \o (IF x.run THEN <<[op |-> "live"]>> ELSE <<>>), IF x.run THEN "live" ELSE "stopped")
Stop == /\ phase = "live" /\ LET x == DStop(w) IN Mark(x, x.ev, "stopped")
End == /\ (phase = "stopped" \/ (phase = "free" /\ w.started /\ ~w.run))
       /\ LET x == Turns(w, 24) IN Mark(x, x.ev \o <<[op |-> "end", alive |-> Alive(x)]>>, "ended")
Next == \/ phase = "free" /\ Len(h) < Depth /\ (App \/ Turn)
        \/ Live \/ Stop \/ End
Spec == Init /\ [][Next]_vars
View == <<w, mon, bad, phase, IF phase = "free" THEN Len(h) ELSE 0>>
NoBad == bad = {}
=============================================================================
