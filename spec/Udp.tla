-------------------------------- MODULE Udp --------------------------------
(***************************************************************************)
(* The UDP client: datagrams arrive at its socket from peers, are received *)
(* one by one, and each is attributed to the peer it came from; the hosts  *)
(* reported are kept by the application and by the circuits opened for     *)
(* them.  Part 1: the clauses of C26.  Part 2: the design, with hosts as   *)
(* references into a heap of records, as in the code.                      *)
(* Events:                                                                 *)
(*  arrive: from, d, n          a datagram reaches the socket              *)
(*  fault:  kind                nothing can be received until told so      *)
(*  calm                                                                   *)
(*  recv:   via "client" | "dispatcher", d, n, from (of the reported host; *)
(*          "" if nothing was received), err, rel, seq                     *)
(*  send:   via, to (a peer), d, err, and out: what the socket was handed, *)
(*          or what reached the peers: sequence of [to, d, ids] (ids: the  *)
(*          acknowledgements in it)                                        *)
(*  flush:  err, out                                                       *)
(* and in each of them seen: where the hosts reported so far point to now, *)
(* in order, and circs: of each circuit the peer it is looked up by and    *)
(* the peer its host points to: sequence of [by, host].                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

When(b, c) == IF b THEN {c} ELSE {}
Rng(q) == {q[i] : i \in 1..Len(q)}

-----------------------------------------------------------------------------
(* Part 1: the monitor                                                     *)
UdpInit(cfg) == [inq |-> <<>>, fault |-> FALSE, told |-> <<>>, circs |-> {}, due |-> {}, may |-> {}]

Receives(s) == ~s.fault /\ s.inq # <<>>
Carried(e) == UNION {{<<x.to, i>> : i \in Rng(x.ids)} : x \in Rng(e.out)}
Step1(s, e) ==
  CASE e.op = "arrive" -> [s EXCEPT !.inq = Append(@, [from |-> e.from, d |-> e.d, n |-> e.n, rel |-> e.rel, seq |-> e.seq])]
    [] e.op = "fault" -> [s EXCEPT !.fault = TRUE]
    [] e.op = "calm" -> [s EXCEPT !.fault = FALSE]
    [] e.op = "recv" -> IF ~Receives(s) THEN s
                        ELSE LET x == Head(s.inq) IN
                             [s EXCEPT !.inq = Tail(@), !.told = Append(@, x.from),
                                       !.due = IF e.via = "dispatcher" /\ x.rel THEN @ \cup {<<x.from, x.seq>>} ELSE @]
    \* what a message carries appended may or may not come again with the next flush
    [] e.op = "send" -> [s EXCEPT !.may = @ \cup (Carried(e) \cap s.due), !.due = @ \ Carried(e)]
    [] e.op = "flush" -> [s EXCEPT !.due = {}, !.may = {}]
    [] OTHER -> s
UdpStep(s, e) == [Step1(s, e) EXCEPT !.circs = {c.by : c \in Rng(e.circs)}]

\* what the hosts reported up to and including event e must point to
Told(s, e) == IF e.op = "recv" /\ Receives(s) THEN Append(s.told, Head(s.inq).from) ELSE s.told
Common(s, e) == When(e.seen # Told(s, e), "C26.earlier")
                \cup When(\E c \in Rng(e.circs) : c.by # c.host, "C26.circuit")
                \cup When(~(s.circs \subseteq {c.by : c \in Rng(e.circs)}), "C26.circuit")
UdpBad(s, e) ==
  CASE e.op = "recv" ->
         (IF Receives(s) THEN LET x == Head(s.inq) IN
            When(e.err # "", "C26.raised") \cup When(e.d # x.d, "C26.bytes") \cup When(e.n # x.n, "C26.length") \cup When(e.from # x.from, "C26.sender")
          ELSE When(e.err # "", "C26.raised") \cup When(e.d # "" \/ e.n # 0, "C26.empty"))
         \cup Common(s, e)
    [] e.op = "send" ->
         When(e.err # "", "C26.raised") \cup When([i \in 1..Len(e.out) |-> [to |-> e.out[i].to, d |-> e.out[i].d]] # <<[to |-> e.to, d |-> e.d]>>, "C26.send")
         \cup When(~(Carried(e) \subseteq (s.due \cup s.may)), "C26.attributed") \cup Common(s, e)
    [] e.op = "flush" ->
         When(e.err # "", "C26.raised")
         \cup When(~(Carried(e) \subseteq (s.due \cup s.may)) \/ ~(s.due \subseteq Carried(e)), "C26.attributed")
         \cup Common(s, e)
    [] OTHER -> {}

RECURSIVE Judge(_, _, _)
Judge(s, b, es) == IF es = <<>> THEN [s |-> s, b |-> b] ELSE Judge(UdpStep(s, Head(es)), b \cup UdpBad(s, Head(es)), Tail(es))

-----------------------------------------------------------------------------
(* Part 2: the design.  heap: sequence of peers, hosts are indices into it; *)
(* sender: the host of the last reception (0: none); told: hosts handed out *)
(* so far; circ: peer -> [host, acks].  Fresh: whether each reception makes *)
(* a new host (the code) or the same one is written again.                  *)
U0 == [inq |-> <<>>, fault |-> FALSE, heap |-> <<>>, sender |-> 0, told |-> <<>>, circ |-> <<>>]
Seen(w) == [i \in 1..Len(w.told) |-> w.heap[w.told[i]]]
Circs(w) == [i \in 1..Len(w.circ) |-> [by |-> w.circ[i].by, host |-> w.heap[w.circ[i].host]]]
At(w, e) == [w |-> w, ev |-> e @@ [seen |-> Seen(w), circs |-> Circs(w)]]
HasCirc(w, p) == \E i \in 1..Len(w.circ) : w.circ[i].by = p
Open(w, h) == IF HasCirc(w, w.heap[h]) THEN w ELSE [w EXCEPT !.circ = Append(@, [by |-> w.heap[h], host |-> h, acks |-> <<>>])]
Queue(w, p, n) == [w EXCEPT !.circ = [i \in 1..Len(@) |-> IF @[i].by = p THEN [@[i] EXCEPT !.acks = Append(@, n)] ELSE @[i]]]

Arrive(w, x) == At([w EXCEPT !.inq = Append(@, x)], [op |-> "arrive", from |-> x.from, d |-> x.d, n |-> x.n, rel |-> x.rel, seq |-> x.seq])
Fault(w) == At([w EXCEPT !.fault = TRUE], [op |-> "fault"])
Calm(w) == At([w EXCEPT !.fault = FALSE], [op |-> "calm"])
RecvU(w, via, Fresh) ==
  IF w.fault \/ w.inq = <<>> THEN At(w, [op |-> "recv", via |-> via, d |-> "", n |-> 0, from |-> "", err |-> ""])
  ELSE LET x == Head(w.inq)
           a == IF Fresh \/ w.sender = 0 THEN [w EXCEPT !.inq = Tail(@), !.heap = Append(@, x.from), !.sender = Len(w.heap) + 1]
                ELSE [w EXCEPT !.inq = Tail(@), !.heap[w.sender] = x.from]
           b == [a EXCEPT !.told = Append(@, a.sender)]
           c == IF via = "dispatcher" /\ x.n > 0 THEN Open(b, b.sender) ELSE b
           d == IF via = "dispatcher" /\ x.rel THEN Queue(c, x.from, x.seq) ELSE c
       IN At(d, [op |-> "recv", via |-> via, d |-> x.d, n |-> x.n, from |-> x.from, err |-> ""])
\* sending d to a host: one reported earlier (i > 0), or one the application makes (i = 0)
SendU(w, via, i, p, d) ==
  LET a == IF i = 0 THEN [w EXCEPT !.heap = Append(@, p)] ELSE w
      h == IF i = 0 THEN Len(a.heap) ELSE w.told[i]
      to == IF i = 0 THEN p ELSE w.heap[w.told[i]]
      b == IF via = "dispatcher" THEN Open(a, h) ELSE a
      acks == IF via = "dispatcher" THEN b.circ[CHOOSE k \in 1..Len(b.circ) : b.circ[k].by = to].acks ELSE <<>>
  IN At(b, [op |-> "send", via |-> via, to |-> p, d |-> d, err |-> "", out |-> <<[to |-> to, d |-> d, ids |-> acks]>>])
FlushU(w) ==
  LET withacks == SelectSeq(w.circ, LAMBDA c : c.acks # <<>>)
  IN At([w EXCEPT !.circ = [i \in 1..Len(@) |-> [@[i] EXCEPT !.acks = <<>>]]],
        [op |-> "flush", err |-> "", out |-> [i \in 1..Len(withacks) |-> [to |-> w.heap[withacks[i].host], d |-> "", ids |-> withacks[i].acks]]])
=============================================================================
