------------------------------- MODULE Link -------------------------------
(***************************************************************************)
(* Endpoints of this library talking to each other over a network that     *)
(* drops, duplicates and reorders datagrams.                               *)
(* A datagram is [src, dst, seq, rel, acks, ids]: acks stand behind the    *)
(* message, ids are the numbers in the body of a PacketAck.                *)
(* Part 1: the clauses of C06.  Part 2: the design.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

When(b, c) == IF b THEN {c} ELSE {}
Rng(q) == {q[i] : i \in 1..Len(q)}
Carries(d) == Rng(d.acks) \cup Rng(d.ids)

(* Part 1.  State of the monitor: sets of <<from, to, number>> of reliable  *)
(* datagrams sent; received; and whose acknowledgement the network dropped. *)
(* Events: op in {send, flush, deliver, drop, settled}, dg (the datagram    *)
(* delivered or dropped), out (datagrams sent in consequence), outst[e][p]  *)
(* (numbers e holds outstanding towards p), tail (datagrams sent in the     *)
(* last three rounds of settling).                                          *)
LinkInit(cfg) == [sent |-> {}, rcvd |-> {}, lost |-> {}]

Sent(out) == {<<d.src, d.dst, d.seq>> : d \in {x \in Rng(out) : x.rel}}
LinkStep(s, e) ==
  [sent |-> s.sent \cup Sent(e.out),
   rcvd |-> IF e.op = "deliver" /\ e.dg.rel THEN s.rcvd \cup {<<e.dg.src, e.dg.dst, e.dg.seq>>} ELSE s.rcvd,
   lost |-> IF e.op = "drop" THEN s.lost \cup {<<e.dg.dst, e.dg.src, q>> : q \in Carries(e.dg)} ELSE s.lost]

Held(e, x) == x[3] \in Rng(e.outst[x[1]][x[2]])
LinkBad(s, e) ==
  LET n == LinkStep(s, e) IN
  When(e.err # "", "C06.error")
  \cup When(\E x \in n.sent : ~Held(e, x) /\ x \notin n.rcvd, "C06.early")
  \cup When(\E d \in Rng(e.out) : \E q \in Carries(d) : <<d.dst, d.src, q>> \notin n.rcvd, "C06.phantom")
  \cup (IF e.op = "deliver" THEN When(\E q \in Carries(e.dg) : LET x == <<e.dg.dst, e.dg.src, q>> IN x \in s.sent /\ Held(e, x), "C06.kept") ELSE {})
  \cup (IF e.op = "settled" THEN When(\E x \in (s.sent \cap s.rcvd) \ s.lost : Held(e, x), "C06.unacked")
                                 \cup When(e.tail > 0, "C06.chatter") ELSE {})

-----------------------------------------------------------------------------
(* Part 2: the design of an endpoint towards its peer:                      *)
(* [seq, outst (set), pend (sequence of numbers to acknowledge)]            *)
E0 == [seq |-> 0, outst |-> {}, pend |-> <<>>]
Dg(a, b, st, rel, acks, ids) == [src |-> a, dst |-> b, seq |-> st.seq + 1, rel |-> rel, acks |-> acks, ids |-> ids]
\* sending: acknowledgements waiting ride along and stay waiting until the next flush
DSend(st, a, b, rel) == [st |-> [st EXCEPT !.seq = @ + 1, !.outst = IF rel THEN @ \cup {st.seq + 1} ELSE @],
                         out |-> <<Dg(a, b, st, rel, st.pend, <<>>)>>]
DRecv(st, d) == [st EXCEPT !.outst = @ \ Carries(d), !.pend = IF d.rel THEN Append(@, d.seq) ELSE @]
DFlush(st, a, b) == IF st.pend = <<>> THEN [st |-> st, out |-> <<>>]
                    ELSE [st |-> [st EXCEPT !.seq = @ + 1, !.pend = <<>>], out |-> <<Dg(a, b, st, FALSE, <<>>, st.pend)>>]
=============================================================================
