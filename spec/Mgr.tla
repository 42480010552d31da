-------------------------------- MODULE Mgr --------------------------------
(***************************************************************************)
(* A message manager: a queue of messages to send, the network loop, the   *)
(* event queue loop, and the application's calls between their yields.     *)
(* Part 1: the clauses of C13 (the loop), C16 and C24.  Part 2: the design *)
(* at the granularity of yields.                                           *)
(*                                                                         *)
(* Events, in the order in which they happened:                            *)
(*  start, stop (err), enq (v, rel, now, ok: can be encoded),              *)
(*  enter / gone (who: "L" network loop, "E" event queue loop; err)        *)
(*  call: the loop asks for a datagram; got: it was given one (host, seq,  *)
(*  ok, rel, sub: there is a handler that records); hand: that handler was *)
(*  called; sent: a datagram (dst, name, v, rel, res: marked as sent again, acks, ids);               *)
(*  poll: a post to the event queue (done: the final one);                 *)
(*  fair: from here on every coroutine gets its turn; live: many turns     *)
(*  later; end: many turns after the stop (alive: coroutines left)         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

When(b, c) == IF b THEN {c} ELSE {}
Rng(q) == {q[i] : i \in 1..Len(q)}

MgrInit(cfg) == [eq |-> cfg.eq, eqon |-> cfg.eqon, q |-> <<>>, started |-> FALSE, stopped |-> FALSE, early |-> {}, entered |-> {}, gone |-> {},
                 must |-> {}, rcv |-> {}, due |-> {}, calls |-> 0, polls |-> 0, done |-> FALSE, fcalls |-> 0, fpolls |-> 0, idle |-> 0, out |-> {}]

RECURSIVE SkipBad(_)
SkipBad(q) == IF q # <<>> /\ ~Head(q).ok THEN SkipBad(Tail(q)) ELSE q
\* the place of v in the queue, of the first if it waits more than once, 0 if it does not
Place(q, v) == LET I == {i \in 1..Len(q) : q[i].v = v} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Without(q, v) == LET i == Place(q, v) IN IF i = 0 THEN q ELSE SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Waiting(q) == {x \in Rng(q) : x.ok}
\* a datagram that is marked as sent again, of a message already sent
Again(s, e) == e.res /\ e.name # "PacketAck" /\ e.v \in s.out
Acked(e) == {<<e.dst, a>> : a \in Rng(e.acks) \cup Rng(e.ids)}

MgrStep(s, e) ==
  CASE e.op = "enq" -> LET x == [v |-> e.v, rel |-> e.rel, ok |-> e.ok, late |-> s.stopped] IN
                       [s EXCEPT !.q = IF e.now THEN <<x>> \o @ ELSE Append(@, x)]
    [] e.op = "start" -> [s EXCEPT !.started = TRUE]
    [] e.op = "stop" -> [s EXCEPT !.stopped = TRUE, !.early = IF s.stopped THEN @ ELSE s.entered]
    [] e.op = "enter" -> [s EXCEPT !.entered = @ \cup {e.who}]
    [] e.op = "gone" -> [s EXCEPT !.gone = @ \cup {e.who}]
    [] e.op = "call" -> [s EXCEPT !.calls = IF s.stopped THEN @ + 1 ELSE @, !.fcalls = @ + 1,
                                  !.idle = IF s.must = {} /\ Waiting(s.q) = {} THEN 0 ELSE @ + 1]
    [] e.op = "got" -> [s EXCEPT !.must = IF e.ok /\ e.rel THEN @ \cup {<<e.host, e.seq>>} ELSE @,
                                 !.rcv = IF e.rel THEN @ \cup {<<e.host, e.seq>>} ELSE @,
                                 !.due = IF e.ok /\ e.sub THEN @ \cup {<<e.host, e.seq>>} ELSE @]
    [] e.op = "hand" -> [s EXCEPT !.due = @ \ {<<e.host, e.seq>>}]
    [] e.op = "sent" -> IF Again(s, e) THEN s ELSE [s EXCEPT !.idle = 0, !.out = @ \cup {e.v}, !.must = @ \ Acked(e), !.q = IF e.name = "PacketAck" THEN @ ELSE Without(SkipBad(@), e.v)]
    [] e.op = "poll" -> [s EXCEPT !.polls = IF s.stopped THEN @ + 1 ELSE @, !.done = e.done, !.fpolls = @ + 1]
    [] e.op = "fair" -> [s EXCEPT !.fcalls = 0, !.fpolls = 0]
    [] OTHER -> s

SentBad(s, e) ==
  When(~(Acked(e) \subseteq s.rcv), "C13.phantom")
  \cup (IF e.name = "PacketAck" \/ Again(s, e) THEN {}
        ELSE LET q == SkipBad(s.q)
                 i == Place(q, e.v)
             IN When(i = 0, "C16.unknown")
                \cup When(i > 1, "C16.order")
                \cup (IF i = 0 THEN {} ELSE When(q[i].rel # e.rel, "C16.rel"))
                \cup When(e.dst # "A", "C16.host")
                \cup When("L" \in s.gone, "C24.after"))
\* so many rounds without acknowledging or sending anything of what waits, though datagrams still come, are too many
Patience == 20
\* what the loop owes when it has had its turns
Owed(s) == When(s.must # {}, "C13.unacked") \cup When(s.due # {}, "C13.undelivered") \cup When(Waiting(s.q) # {}, "C16.unsent")

MgrBad(s, e) ==
  CASE e.op = "sent" -> SentBad(s, e)
    [] e.op = "start" -> When(e.err # "", "C24.start")
    [] e.op = "stop" -> When(e.err # "", "C24.stoperr")
    [] e.op = "enq" -> When(e.err # "", "C16.error")
    [] e.op = "gone" -> When(~s.stopped, "C24.dead") \cup When(~s.stopped /\ e.who = "L", "C13.dead")
                        \cup (IF s.stopped /\ e.who = "L" /\ "L" \in s.early
                              THEN LET x == {y \in Waiting(s.q) : ~y.late} IN When(x # {}, "C16.unsent") \cup When(x # {}, "C24.queue") ELSE {})
    [] e.op = "call" -> When(s.idle >= Patience, "C13.starved") \cup When(s.stopped /\ s.calls >= 1, "C24.rounds") \cup When("L" \in s.gone, "C24.after")
    [] e.op = "poll" -> When(~(s.started /\ s.eq /\ s.eqon), "C24.poll")
                        \cup When(~e.done /\ s.stopped /\ s.polls >= 1, "C24.polls")
                        \cup When(e.done /\ ~s.stopped, "C24.done")
                        \cup When(s.done \/ "E" \in s.gone, "C24.after")
    [] e.op = "live" -> Owed(s) \cup When(s.started /\ s.fcalls = 0, "C24.idle") \cup When(s.started /\ s.fcalls = 0, "C13.idle")
                        \cup When(s.started /\ s.eq /\ s.eqon /\ s.fpolls = 0, "C24.idle")
    [] e.op = "end" -> When(e.alive > 0 \/ \E w \in s.entered : w \notin s.gone, "C24.end")
    [] OTHER -> {}

RECURSIVE Judge(_, _, _)
Judge(s, b, es) == IF es = <<>> THEN [s |-> s, b |-> b] ELSE Judge(MgrStep(s, Head(es)), b \cup MgrBad(s, Head(es)), Tail(es))

-----------------------------------------------------------------------------
(* Part 2: the design.  w is the world:                                     *)
(*  run, eqs (event queue told to stop), q, inbox, pend (numbers to         *)
(*  acknowledge by host), L and E (where the loops stand), todo (numbers    *)
(*  being acknowledged), last (id of the event queue), ev (what happened),  *)
(*  n (tokens used), mk (the message made last), c (cfg: eq, eqon, and which calls yield: yr, ys, yp)   *)
Hosts == <<"A", "B">>
W0(c) == [c |-> c, run |-> FALSE, started |-> FALSE, eqs |-> FALSE, q |-> <<>>, inbox |-> <<>>, pend |-> [h \in Rng(Hosts) |-> <<>>],
          L |-> "none", E |-> "none", todo |-> <<>>, last |-> 0, ev |-> <<>>, n |-> 0, mk |-> <<>>]
Say(w, e) == [w EXCEPT !.ev = Append(@, e)]

DStart(w) == Say([w EXCEPT !.run = TRUE, !.started = TRUE, !.L = "new", !.E = IF w.c.eq /\ w.c.eqon THEN "new" ELSE "none"], [op |-> "start", err |-> ""])
DStop(w) == Say([w EXCEPT !.run = FALSE, !.eqs = TRUE], [op |-> "stop", err |-> ""])
Enq(w, v, rel, now, ok) == LET x == [v |-> v, rel |-> rel, ok |-> ok] IN
  Say([w EXCEPT !.q = IF now THEN <<x>> \o @ ELSE Append(@, x), !.mk = <<[v |-> v, ok |-> ok]>>], [op |-> "enq", err |-> "", v |-> v, rel |-> rel, now |-> now, ok |-> ok])
DEnq(w, rel, now, ok) == Enq([w EXCEPT !.n = @ + 1], w.n + 1, rel, now, ok)
\* the last message once more
DAgain(w, rel, now) == Enq(w, w.mk[1].v, rel, now, w.mk[1].ok)

RECURSIVE LGo(_)
LGo(w) ==
  IF w.todo # <<>> THEN
    LET h == Head(w.todo)
        x == Say([w EXCEPT !.todo = Tail(@), !.pend[h] = <<>>],
                 [op |-> "sent", dst |-> h, name |-> "PacketAck", v |-> 0, rel |-> FALSE, res |-> FALSE, acks |-> <<>>, ids |-> w.pend[h]])
    IN IF w.c.ys THEN [x EXCEPT !.L = "mid"] ELSE LGo(x)
  ELSE IF w.q # <<>> THEN
    LET m == Head(w.q)
        x == [w EXCEPT !.q = Tail(@)]
        y == Say(x, [op |-> "sent", dst |-> "A", name |-> "m", v |-> m.v, rel |-> m.rel, res |-> FALSE, acks |-> <<>>, ids |-> <<>>])
    IN IF ~m.ok THEN LGo(x) ELSE IF w.c.ys THEN [y EXCEPT !.L = "mid"] ELSE LGo(y)
  ELSE IF w.run THEN [w EXCEPT !.L = "sleep"] ELSE Say([w EXCEPT !.L = "dead"], [op |-> "gone", who |-> "L", err |-> ""])
\* the effect of a datagram: kind "plain", "raise", "enq", "now", "stop" (what its handlers do) or "bad" (rejected)
Handled(w, d) ==
  LET x == Say(w, [op |-> "hand", host |-> d.host, seq |-> d.seq]) IN
  CASE d.kind = "enq" -> DEnq(x, FALSE, FALSE, TRUE)
    [] d.kind = "now" -> DEnq(x, TRUE, TRUE, TRUE)
    [] d.kind = "stop" -> DStop(x)
    [] OTHER -> x
LRecv(w) ==
  IF w.inbox = <<>> THEN LGo(w)
  ELSE LET d == Head(w.inbox)
           a == Say([w EXCEPT !.inbox = Tail(@), !.pend[d.host] = IF d.rel THEN Append(@, d.seq) ELSE @],
                    [op |-> "got", host |-> d.host, seq |-> d.seq, ok |-> d.kind # "bad", rel |-> d.rel, sub |-> TRUE])
           b == IF d.kind = "bad" THEN a ELSE Handled(a, d)
       IN LGo([b EXCEPT !.todo = SelectSeq(Hosts, LAMBDA h : b.pend[h] # <<>>)])
LStep(w) ==
  CASE w.L = "new" -> LET x == Say(w, [op |-> "enter", who |-> "L"]) IN
                      IF w.run THEN [x EXCEPT !.L = "sleep"] ELSE Say([x EXCEPT !.L = "dead"], [op |-> "gone", who |-> "L", err |-> ""])
    [] w.L = "sleep" -> LET x == Say(w, [op |-> "call"]) IN IF w.c.yr THEN [x EXCEPT !.L = "recv"] ELSE LRecv(x)
    [] w.L = "recv" -> LRecv(w)
    [] OTHER -> LGo(w)

Poll(w, done) == Say(w, [op |-> "poll", done |-> done, ack |-> w.last])
EEnd(w) == IF w.last # 0 /\ w.E # "fin" THEN LET x == Poll(w, TRUE) IN IF w.c.yp THEN [x EXCEPT !.E = "fin"] ELSE Say([x EXCEPT !.E = "dead"], [op |-> "gone", who |-> "E", err |-> ""])
           ELSE Say([w EXCEPT !.E = "dead"], [op |-> "gone", who |-> "E", err |-> ""])
EGot(w, res) == LET x == [w EXCEPT !.last = IF res = "id" THEN @ + 1 ELSE @] IN IF w.eqs THEN EEnd(x) ELSE [x EXCEPT !.E = "sleep"]
EStep(w, res) ==
  CASE w.E = "new" -> LET x == Say(w, [op |-> "enter", who |-> "E"]) IN IF w.eqs THEN EEnd(x) ELSE [x EXCEPT !.E = "sleep"]
    [] w.E = "sleep" -> LET x == Poll(w, FALSE) IN IF w.c.yp THEN [x EXCEPT !.E = "post"] ELSE EGot(x, res)
    [] w.E = "post" -> EGot(w, res)
    [] OTHER -> EEnd(w)
=============================================================================
