------------------------------- MODULE Net -------------------------------
(***************************************************************************)
(* The UDP dispatcher and its circuits: sequence numbers, reliable        *)
(* messages, acknowledgements (explicit and appended), trust, delivery to *)
(* handlers, messages barred from UDP, rejected datagrams.                *)
(*                                                                         *)
(* Part 1, the monitor, is the property side: an abstract state of what   *)
(* a peer could know, and for each observed operation the clauses it      *)
(* breaks.  Part 2, the design, is the dispatcher's own algorithm written *)
(* as a state machine over the data the code keeps.  MC_Net explores the  *)
(* design exhaustively against the monitor; TraceNet runs the monitor on  *)
(* executions recorded from the code.                                     *)
(*                                                                         *)
(* Numbers chosen by a peer are strings (they may exceed TLC's integers); *)
(* our own sequence numbers are integers.                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rng(q) == {q[i] : i \in 1..Len(q)}
When(b, c) == IF b THEN {c} ELSE {}
RECURSIVE SetToSeqStr(_)
SetToSeqStr(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeqStr(S \ {x})
RECURSIVE NetFold(_, _, _)

-----------------------------------------------------------------------------
(* Part 1: the monitor                                                     *)

NetInit(cfg) ==
  LET H == Rng(cfg.hosts) IN
  [ hosts   |-> H,
    last    |-> [h \in H |-> 0],    \* highest number put on a datagram to h
    skip    |-> [h \in H |-> 0],    \* sends to h refused since then
    outst   |-> [h \in H |-> {}],   \* outstanding reliable messages
    relmsg  |-> [h \in H |-> {}],   \* <<number, name, token>> sent reliably to h
    retr    |-> [h \in H |-> {}],   \* <<number, retries left>> of those sent with retries
    must    |-> [h \in H |-> {}],   \* received reliably, acknowledgement due
    mustb   |-> [h \in H |-> {}],   \* ... of these, messages barred from UDP
    rcvd    |-> [h \in H |-> {}],   \* every number received reliably from h
    nrcv    |-> [h \in H |-> 0],    \* reliable receptions since the last flush
    pend    |-> [h \in H |-> FALSE],\* anything received that may be acknowledged since then
    trust   |-> [h \in H |-> FALSE],
    alive   |-> [h \in H |-> "no"], \* whether there is a circuit: "no", "yes", "open"
    forgot  |-> FALSE,              \* a circuit has been forgotten
    rej     |-> FALSE,              \* a datagram has been rejected
    subs    |-> <<>>,               \* subscriptions in order: [sub, name, raises]
    reg     |-> {},
    defer   |-> cfg.defer,
    hp      |-> cfg.hp,
    barred  |-> Rng(cfg.barred) ]

Left(s, h, n) == IF \E x \in s.retr[h] : x[1] = n THEN (CHOOSE x \in s.retr[h] : x[1] = n)[2] ELSE 0
IsResend(s, d) == d.res /\ ToString(d.seq) \in s.outst[d.dst]

OneOutBad(s, op, d) ==
  IF d.dst \notin s.hosts THEN {"C01.host"}
  ELSE
    When(~IsResend(s, d) /\ ~(d.seq > s.last[d.dst] /\ d.seq <= s.last[d.dst] + 1 + s.skip[d.dst]), "C01.seq")
    \cup When(d.ok /\ (d.ackf # (d.tr = "ok")), "C04.flag")
    \cup When(d.ok /\ d.tr = "bad", "C04.trailer")
    \cup When(d.ok /\ ~(Rng(d.acks) \subseteq s.rcvd[d.dst]), "C04.only")
    \cup When(d.ok /\ ~((Rng(d.ids) \cup Rng(d.acks)) \subseteq s.rcvd[d.dst]), "C03.only")
    \cup When(Len(d.ids) > 255, "C03.max")
    \cup When(d.ok /\ d.name \in s.barred, "C15.sent")
    \cup When(d.res /\ ~IsResend(s, d), "C25.acked")
    \cup When(IsResend(s, d) /\ <<d.seq, d.name, d.v>> \notin s.relmsg[d.dst], "C25.same")
    \cup When(IsResend(s, d) /\ (~d.ok \/ d.tr = "bad" \/ d.ackf # (d.tr = "ok")), "C25.same")
    \cup When(IsResend(s, d) /\ ~d.rel, "C25.reliable")
    \cup When(IsResend(s, d) /\ Left(s, d.dst, ToString(d.seq)) = 0, "C25.used")
    \* outside a send, only acknowledgements and resends leave
    \cup When(op # "send" /\ ~d.res /\ d.ok /\ d.name # "PacketAck", "C25.again")

OneOutStep(s, d) ==
  IF d.dst \notin s.hosts THEN s
  ELSE LET h == d.dst
           acked == Rng(d.ids) \cup Rng(d.acks)
       IN [s EXCEPT !.last[h] = IF d.seq > @ THEN d.seq ELSE @,
                    !.skip[h] = IF IsResend(s, d) THEN @ ELSE 0,
                    !.must[h] = @ \ acked,
                    !.mustb[h] = @ \ acked,
                    !.retr[h] = IF IsResend(s, d) THEN {IF x[1] = ToString(d.seq) THEN <<x[1], x[2] - 1>> ELSE x : x \in @} ELSE @]

NetFold(s, op, q) ==   \* <<state after the datagrams q, clauses they break>>
  IF q = <<>> THEN <<s, {}>>
  ELSE LET b == OneOutBad(s, op, Head(q))
           r == NetFold(OneOutStep(s, Head(q)), op, Tail(q))
       IN <<r[1], b \cup r[2]>>

BadHost(h) == h \in {"N1", "N2", "N3", "N4"}

SubsOf(s, name) == SelectSeq(s.subs, LAMBDA x : x.name = name)

\* what the outstanding set of h may be after reception e, as <<least, greatest>>
Released(s, e) == Rng(e.acks) \cup Rng(e.ids)
OutstRange(s, e, h) ==
  IF e.op = "forget" /\ e.host = h THEN <<{}, {}>>
  ELSE IF e.op = "recv" /\ e.host = h THEN
     IF ~e.valid \/ s.trust[h] THEN <<s.outst[h], s.outst[h]>>
     ELSE IF e.name \in s.barred THEN <<s.outst[h] \ Released(s, e), s.outst[h]>>
     ELSE <<s.outst[h] \ Released(s, e), s.outst[h] \ Released(s, e)>>
  ELSE IF e.op = "send" /\ ~BadHost(e.host) /\ e.host = h /\ e.rel /\ e.out # <<>>
       THEN LET n == ToString(e.out[1].seq) IN <<s.outst[h] \cup {n}, s.outst[h] \cup {n}>>
  ELSE IF e.op = "send" /\ e.host = h /\ e.rel /\ e.out = <<>>
       \* a refused reliable send may leave its number outstanding
       THEN <<s.outst[h], s.outst[h] \cup {ToString(k) : k \in s.last[h]+1 .. s.last[h]+1+s.skip[h]}>>
  ELSE <<s.outst[h], s.outst[h]>>

OutstOk(s, e, h) ==
  LET r == OutstRange(s, e, h)
      o == Rng(e.outst[h])
  IN r[1] \subseteq o /\ o \subseteq r[2]

RecvPlain(s, e) == e.valid /\ ~s.trust[e.host] /\ e.name \notin s.barred

\* delivery: e.dels against the subscriptions of the name, up to one that raises
DelsOk(s, e) ==
  LET q == SubsOf(s, e.name)
      n == Len(e.dels)
      firstraise == IF \E i \in 1..Len(q) : q[i].raises # ""
                    THEN CHOOSE i \in 1..Len(q) : q[i].raises # "" /\ \A j \in 1..i-1 : q[j].raises = ""
                    ELSE Len(q)
  IN /\ n <= Len(q)
     /\ n >= firstraise
     /\ \A i \in 1..n : e.dels[i].sub = q[i].sub
DelsContent(e) == \A i \in 1..Len(e.dels) :
                    e.dels[i].name = e.name /\ e.dels[i].seq = e.seq /\ e.dels[i].v = e.v
Raising(s, e) == s.hp /\ \E i \in 1..Len(SubsOf(s, e.name)) : SubsOf(s, e.name)[i].raises # ""

MustRet(s, e) == (e.name \in s.reg \/ ~s.defer) /\ ~Raising(s, e)

AnyTrust(s) == \E h \in s.hosts : s.trust[h]

SendBad(s, e) ==
  IF BadHost(e.host) THEN When(e.out # <<>>, "C01.nohost")
  ELSE
    LET h == e.host
        refused == e.invalid \/ e.name \in s.barred
        mine == [i \in 1..Len(e.out) |-> e.out[i].dst = h]
    IN  When(\E i \in 1..Len(e.out) : ~mine[i], "C01.host")
   \cup When(e.name \in s.barred /\ e.out # <<>>, "C15.sent")
   \cup When(~refused /\ e.out = <<>> /\ e.name # "PacketAck", "C15.pass")
   \cup When(~refused /\ e.rel /\ e.out = <<>>, "C02.sent")
   \cup When(Len(e.out) > 1, "C25.twice")
   \cup (IF Len(e.out) = 1 /\ ~refused /\ e.out[1].dst = h THEN
           LET d == e.out[1] IN
               When(d.rel # e.rel, "C02.flag")
          \cup When(~d.ok \/ d.name # e.name \/ (e.name # "PacketAck" /\ d.v # e.v), "C04.body")
          \cup When(d.ok /\ e.name # "PacketAck" /\ s.must[h] # {} /\ s.nrcv[h] <= 255
                      /\ ~(s.must[h] \subseteq Rng(d.acks)), "C04.carry")
          \cup When(d.ok /\ e.name # "PacketAck" /\ s.must[h] # {} /\ s.nrcv[h] > 255
                      /\ Len(d.acks) # 255 /\ ~(s.must[h] \subseteq Rng(d.acks)), "C04.carry")
         ELSE {})

RecvBad(s, e) ==
  LET h == e.host IN
       When(s.trust[h] /\ e.valid /\ e.dels # <<>>, "C05.deliver")
  \cup When(s.trust[h] /\ e.valid /\ e.ret # "", "C05.ret")
  \cup When(e.valid /\ e.name \in s.barred /\ ~s.trust[h] /\ e.dels # <<>>, "C15.deliver")
  \cup When(e.valid /\ e.name \in s.barred /\ ~s.trust[h] /\ e.ret # "", "C15.ret")
  \cup When(~e.valid /\ (e.dels # <<>> \/ e.ret # ""), "C12.madeup")
  \cup (IF RecvPlain(s, e) THEN
              When(s.hp /\ ~DelsOk(s, e), "C07.deliver")
         \cup When(~s.hp /\ e.dels # <<>>, "C07.handlingoff")
         \cup When(s.hp /\ ~DelsOk(s, e) /\ AnyTrust(s), "C05.pass")
         \cup When(AnyTrust(s) /\ MustRet(s, e) /\ e.ret # e.name, "C05.pass")
         \cup When(AnyTrust(s) /\ ~OutstOk(s, e, h), "C05.other")
         \cup When(s.barred # {} /\ s.hp /\ ~DelsOk(s, e), "C15.pass")
         \cup When(s.barred # {} /\ MustRet(s, e) /\ e.ret # e.name, "C15.pass")
         \cup When(e.acks # <<>> /\ (~OutstOk(s, e, h) \/ (MustRet(s, e) /\ e.ret # e.name)), "C04.read")
         \cup When(~DelsContent(e), "C07.content")
         \cup When(MustRet(s, e) /\ e.ret # e.name, "C07.ret")
         \cup When(e.ret \notin {"", e.name}, "C07.ret")
         \cup When(e.ret # "" /\ (e.rv # e.v /\ e.name # "PacketAck"), "C07.content")
         \cup When(e.ret # "" /\ (e.rseq # e.seq \/ e.rrel # e.rel), "C07.header")
         \cup When(e.ret # "" /\ e.racks # e.acks, "C04.read")
         \cup When(e.ret # "" /\ e.acks # <<>> /\ e.rv # e.v /\ e.name # "PacketAck", "C04.unchanged")
         \cup When(Raising(s, e) /\ SubsOf(s, e.name) # <<>> /\ e.err = "", "C09.swallowed")
       ELSE {})

FlushBad(s, e, after) ==
       When(\E h \in s.hosts : after.must[h] # {}, "C03.acked")
  \cup When(\E h \in s.hosts : after.mustb[h] # {}, "C15.acked")
  \cup When(e.left, "C03.left")
  \cup When(e.err # "", "C03.error")
  \cup When(\E i \in 1..Len(e.out) : e.out[i].name = "PacketAck" /\ e.out[i].dst \in s.hosts /\ ~s.pend[e.out[i].dst], "C03.idle")
  \cup When(\E h \in s.hosts : \E x \in s.retr[h] : x[2] > 0 /\ x[1] \in s.outst[h] /\
              ~(\E i \in 1..Len(e.out) : e.out[i].dst = h /\ e.out[i].res /\ ToString(e.out[i].seq) = x[1]), "C25.rexmit")

ManyBad(s, e) ==
       When(e.err # "", "C01.many")
  \cup When(~(e.first > s.last[e.host] /\ e.first <= s.last[e.host] + 1 + s.skip[e.host]), "C01.seq")
  \cup When(e.final # e.first + e.n - 1, "C01.seq")
  \cup When(e.op = "many" /\ (e.gaps # 0 \/ e.count # e.n), "C01.seq")

\* the host whose circuit e is about, if any
About(s, e) == IF e.op \in {"send", "recv", "many", "burn", "trust", "forget"} /\ e.host \in s.hosts THEN {e.host} ELSE {}
AliveNext(s, e) ==
  [h \in s.hosts |-> IF h \notin About(s, e) THEN s.alive[h]
                     ELSE IF e.op = "forget" THEN "no"
                     ELSE IF (e.op = "send" /\ e.out = <<>>) \/ (e.op = "recv" /\ ~e.valid)
                          THEN (IF s.alive[h] = "yes" THEN "yes" ELSE "open")
                     ELSE "yes"]
ForgetBad(s, e, bad) ==
  LET a == AliveNext(s, e)
      anew == {"C01.seq", "C01.host", "C02.outst", "C02.count", "C03.only", "C03.idle", "C03.acked", "C03.due", "C04.only", "C04.carry",
               "C25.acked", "C25.rexmit", "C25.used", "C05.deliver", "C05.ret", "C05.pass", "C05.release"}
  IN When(\E h \in s.hosts : (a[h] = "yes" /\ ~e.alive[h]) \/ (a[h] = "no" /\ e.alive[h]), "C28.alive")
     \cup When(~e.one, "C28.one")
     \* messages a handler was given stay as they were
     \cup When(~e.kept, "C07.kept")
     \cup When(e.op = "forget" /\ (e.err # "" \/ e.out # <<>>), "C28.error")
     \cup When((s.forgot \/ e.op = "forget") /\ bad \cap anew # {}, "C28.anew")

NetBad0(s, e) ==
  LET f == NetFold(s, e.op, e.out)
      badout == {h \in s.hosts : ~OutstOk(s, e, h)}
  IN f[2]
     \cup When(badout # {}, "C02.outst")
     \cup When(\E h \in s.hosts : e.cnt[h] # Len(e.outst[h]), "C02.count")
     \cup When(e.op = "recv" /\ e.valid /\ s.trust[e.host] /\ badout # {}, "C05.release")
     \cup When(e.op = "recv" /\ ~e.valid /\ badout # {}, "C13.outst")
     \cup When(e.op = "recv" /\ ~e.valid /\ e.out # <<>>, "C13.out")
     \cup (CASE e.op = "send" -> SendBad(s, e)
             [] e.op = "recv" -> RecvBad(s, e)
             [] e.op = "flush" -> FlushBad(s, e, f[1])
             \* many plain sends at once, with nothing to acknowledge; or numbers drawn and not used
             [] e.op \in {"many", "burn"} -> ManyBad(s, e)
             [] e.op = "forget" -> {}
             [] OTHER -> When(e.err # "", "C07.setup"))

NetStep0(s, e) ==
  LET f == NetFold(s, e.op, e.out)[1]
      t == [f EXCEPT !.outst = [h \in s.hosts |->
                 LET r == OutstRange(s, e, h) IN (Rng(e.outst[h]) \cap r[2]) \cup r[1]]]
  IN CASE e.op = "send" ->
            IF BadHost(e.host) THEN t
            ELSE [t EXCEPT !.skip[e.host] = IF e.out = <<>> THEN @ + 1 ELSE @,
                           !.retr[e.host] = IF e.rel /\ e.out # <<>> /\ e.retries > 0
                                            THEN @ \cup {<<ToString(e.out[1].seq), e.retries>>} ELSE @,
                           !.relmsg[e.host] = IF e.rel /\ e.out # <<>>
                                              THEN @ \cup {<<e.out[1].seq, e.name, e.v>>} ELSE @]
       [] e.op = "recv" ->
            IF e.rel /\ e.valid THEN
              [t EXCEPT !.rcvd[e.host] = @ \cup {e.seq},
                        !.pend[e.host] = TRUE,
                        !.must[e.host] = IF s.trust[e.host] THEN @ ELSE @ \cup {e.seq},
                        !.mustb[e.host] = IF s.trust[e.host] \/ e.name \notin s.barred THEN @ ELSE @ \cup {e.seq},
                        !.nrcv[e.host] = @ + 1]
            ELSE IF e.rel /\ e.may THEN   \* rejected, but its number may be acknowledged
              [t EXCEPT !.rcvd[e.host] = @ \cup {e.seq}, !.pend[e.host] = TRUE, !.nrcv[e.host] = @ + 1]
            ELSE t
       [] e.op = "flush" ->
            [t EXCEPT !.nrcv = [h \in s.hosts |-> 0], !.pend = [h \in s.hosts |-> FALSE],
                      !.must = [h \in s.hosts |-> {}], !.mustb = [h \in s.hosts |-> {}]]
       [] e.op \in {"many", "burn"} -> [t EXCEPT !.last[e.host] = IF e.final > @ THEN e.final ELSE @, !.skip[e.host] = 0]
       [] e.op = "trust" -> [t EXCEPT !.trust[e.host] = e.val]
       [] e.op = "forget" ->
            [t EXCEPT !.last[e.host] = 0, !.skip[e.host] = 0, !.relmsg[e.host] = {}, !.retr[e.host] = {}, !.must[e.host] = {},
                      !.mustb[e.host] = {}, !.rcvd[e.host] = {}, !.nrcv[e.host] = 0, !.pend[e.host] = FALSE,
                      !.trust[e.host] = FALSE, !.forgot = TRUE]
       [] e.op = "reg" -> [t EXCEPT !.reg = @ \cup {e.name}]
       [] e.op = "sub" -> [t EXCEPT !.reg = @ \cup {e.name},
                                    !.subs = Append(@, [sub |-> e.sub, name |-> e.name, raises |-> e.raises])]
       [] e.op = "unsub" -> [t EXCEPT !.subs = SelectSeq(@, LAMBDA x : x.sub # e.sub)]
       [] e.op = "set" -> IF e.what = "defer" THEN [t EXCEPT !.defer = e.val] ELSE [t EXCEPT !.hp = e.val]
       [] OTHER -> t

NetStep(s, e) == [NetStep0(s, e) EXCEPT !.alive = AliveNext(s, e), !.rej = @ \/ (e.op = "recv" /\ ~e.valid)]
NetBad(s, e) ==
  LET n == NetStep0(s, e)
      bad == NetBad0(s, e) \cup When(~e.left /\ \E h \in s.hosts : n.must[h] # {}, "C03.due")
      traces == {"C01.seq", "C02.outst", "C03.only", "C03.idle", "C03.acked", "C03.due", "C04.only", "C04.carry", "C25.acked"}
  IN bad \cup ForgetBad(s, e, bad) \cup When(AnyTrust(s) /\ bad \cap traces # {}, "C05.other")
     \cup When((s.rej \/ (e.op = "recv" /\ ~e.valid)) /\ bad \cap traces # {}, "C13.after")

-----------------------------------------------------------------------------
(* Part 2: the design, as the dispatcher, circuits, (de)serializer and     *)
(* message handler work.  One operation is one atomic action: the          *)
(* dispatcher never yields inside one.                                     *)

DInit(cfg) ==
  LET H == Rng(cfg.hosts) IN
  [ hosts |-> H, order |-> cfg.hosts,
    last |-> [h \in H |-> 0], acks |-> [h \in H |-> <<>>], unacked |-> [h \in H |-> {}],
    count |-> [h \in H |-> 0], again |-> [h \in H |-> <<>>], trusted |-> [h \in H |-> FALSE],
    known |-> [h \in H |-> FALSE],
    reg |-> {}, subs |-> <<>>, defer |-> cfg.defer, hp |-> cfg.hp, barred |-> Rng(cfg.barred) ]

First(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, 1, n)

Datagram(d, h, name, v, rel, ids) ==   \* Circuit.prepare_packet and the serializer
  LET trailer == IF name # "PacketAck" THEN First(d.acks[h], 255) ELSE <<>>
  IN [dst |-> h, seq |-> d.last[h] + 1, rel |-> rel, res |-> FALSE, ackf |-> trailer # <<>>,
      tr |-> IF trailer # <<>> THEN "ok" ELSE "none", acks |-> trailer, ids |-> ids,
      name |-> name, v |-> v, ok |-> TRUE, zero |-> FALSE]

Obs(d, op, out, dels, ret, rv, rseq, rrel, racks, err) ==
  op @@ [out |-> out, dels |-> dels, ret |-> ret, rv |-> rv, rseq |-> rseq, rrel |-> rrel,
         racks |-> racks, err |-> err,
         left |-> \E h \in d.hosts : d.acks[h] # <<>>,
         outst |-> [h \in d.hosts |-> SetToSeqStr(d.unacked[h])],
         cnt |-> d.count, alive |-> d.known, one |-> TRUE, kept |-> TRUE]
Quiet(d, op) == Obs(d, op, <<>>, <<>>, "", "", "", FALSE, <<>>, "")

DSend(d, op) ==
  IF BadHost(op.host) THEN <<d, Quiet(d, op)>>
  ELSE LET h == op.host
           n == d.last[h] + 1
           e == [d EXCEPT !.last[h] = n, !.known[h] = TRUE,
                          !.unacked[h] = IF op.rel THEN @ \cup {ToString(n)} ELSE @,
                          !.count[h] = IF op.rel THEN @ + 1 ELSE @]
           dg == Datagram(d, h, op.name, op.v, op.rel, <<>>)
           f == IF op.rel /\ op.retries > 0 THEN [e EXCEPT !.again[h] = Append(@, [dg |-> dg, left |-> op.retries])] ELSE e
       IN IF op.invalid \/ op.name \in d.barred THEN <<e, Quiet(e, op)>>
          ELSE <<f, Obs(f, op, <<dg>>, <<>>, "sent", "", "", FALSE, <<>>, "")>>

DAck(d, h, id) == IF id \in d.unacked[h] THEN [d EXCEPT !.unacked[h] = @ \ {id}, !.count[h] = @ - 1,
                                                              !.again[h] = SelectSeq(@, LAMBDA x : ToString(x.dg.seq) # id)] ELSE d
RECURSIVE DAcks(_, _, _)
DAcks(d, h, q) == IF q = <<>> THEN d ELSE DAcks(DAck(d, h, Head(q)), h, Tail(q))

DRecv(d0, op) ==
  LET h == op.host
      d == [d0 EXCEPT !.known[h] = TRUE]
      collect == IF op.rel THEN [d EXCEPT !.acks[h] = Append(@, op.seq)] ELSE d
      parse == op.name \in d.reg \/ ~d.defer \/ op.acks # <<>> \/ op.name = "PacketAck"
  IN IF ~op.valid THEN <<d, [Quiet(d, op) EXCEPT !.err = "rejected"]>>
     ELSE IF op.name \in d.barred \/ ~parse THEN <<collect, Quiet(collect, op)>>
     ELSE IF d.trusted[h] THEN <<d, Quiet(d, op)>>
     ELSE LET a == DAcks(DAcks(d, h, op.acks), h, op.ids)
              c == IF op.rel THEN [a EXCEPT !.acks[h] = Append(@, op.seq)] ELSE a
              q == SelectSeq(d.subs, LAMBDA x : x.name = op.name)
              upto == IF \E i \in 1..Len(q) : q[i].raises # ""
                      THEN SubSeq(q, 1, CHOOSE i \in 1..Len(q) : q[i].raises # "" /\ \A j \in 1..i-1 : q[j].raises = "")
                      ELSE q
              dels == IF d.hp THEN [i \in 1..Len(upto) |-> [sub |-> upto[i].sub, name |-> op.name, seq |-> op.seq, v |-> op.v]]
                      ELSE <<>>
              raised == d.hp /\ \E i \in 1..Len(q) : q[i].raises # ""
          IN <<c, IF raised THEN Obs(c, op, <<>>, dels, "", "", "", FALSE, <<>>, "raised")
                  ELSE Obs(c, op, <<>>, dels, op.name, op.v, op.seq, op.rel, op.acks, "")>>

RECURSIVE Chunks(_, _)
Chunks(q, n) == IF q = <<>> THEN <<>> ELSE IF Len(q) <= n THEN <<q>>
                ELSE <<SubSeq(q, 1, n)>> \o Chunks(SubSeq(q, n + 1, Len(q)), n)

RECURSIVE DFlushHosts(_, _, _)
DFlushHosts(d, hs, out) ==
  IF hs = <<>> THEN <<d, out>>
  ELSE LET h == Head(hs)
           ch == Chunks(d.acks[h], 251)
           dgs == [i \in 1..Len(ch) |-> Datagram([d EXCEPT !.last[h] = @ + i - 1], h, "PacketAck", "0", FALSE, ch[i])]
       IN DFlushHosts([d EXCEPT !.last[h] = @ + Len(ch), !.acks[h] = <<>>], Tail(hs), out \o dgs)
\* what left reliably leaves again as it was, flagged; when its retries are used up it is only waited for
RECURSIVE DAgain(_, _, _)
DAgain(d, hs, out) ==
  IF hs = <<>> THEN <<d, out>>
  ELSE LET h == Head(hs)
           q == d.again[h]
           less == [i \in 1..Len(q) |-> [q[i] EXCEPT !.left = @ - 1]]
       IN DAgain([d EXCEPT !.again[h] = SelectSeq(less, LAMBDA x : x.left > 0)], Tail(hs), out \o [i \in 1..Len(q) |-> [q[i].dg EXCEPT !.res = TRUE]])
DFlush(d, op) ==
  LET a == DAgain(d, d.order, <<>>)
      r == DFlushHosts(a[1], d.order, a[2])
  IN <<r[1], Obs(r[1], op, r[2], <<>>, "", "", "", FALSE, <<>>, "")>>

DOp(d, op) ==
  CASE op.op = "send" -> DSend(d, op)
    [] op.op = "recv" -> DRecv(d, op)
    [] op.op = "flush" -> DFlush(d, op)
    [] op.op = "trust" -> LET e == [d EXCEPT !.trusted[op.host] = op.val, !.known[op.host] = TRUE] IN <<e, Quiet(e, op)>>
    [] op.op = "forget" -> LET e == [d EXCEPT !.last[op.host] = 0, !.acks[op.host] = <<>>, !.unacked[op.host] = {}, !.count[op.host] = 0,
                                              !.again[op.host] = <<>>, !.trusted[op.host] = FALSE, !.known[op.host] = FALSE]
                           IN <<e, Quiet(e, op)>>
    [] op.op = "reg" -> LET e == [d EXCEPT !.reg = @ \cup {op.name}] IN <<e, Quiet(e, op)>>
    [] op.op = "sub" -> LET e == [d EXCEPT !.reg = @ \cup {op.name},
                                           !.subs = Append(@, [sub |-> op.sub, name |-> op.name, raises |-> op.raises])]
                        IN <<e, Quiet(e, op)>>
    [] op.op = "unsub" -> LET e == [d EXCEPT !.subs = SelectSeq(@, LAMBDA x : x.sub # op.sub)] IN <<e, Quiet(e, op)>>
    [] op.op = "set" -> LET e == IF op.what = "defer" THEN [d EXCEPT !.defer = op.val] ELSE [d EXCEPT !.hp = op.val]
                        IN <<e, Quiet(e, op)>>
=============================================================================
