------------------------------- MODULE Evt -------------------------------
(***************************************************************************)
(* Events and the message handler: subscriptions, firings (which may nest *)
(* and during which subscribers may subscribe, unsubscribe, clear, fire   *)
(* and raise), notifiers by message name.                                  *)
(*                                                                         *)
(* A history is a flat log: sub, unsub, clear, len, reg, handled,          *)
(* fire ... call ... ret ... end.  cfg.kind is "event" (C08: events used  *)
(* directly) or "mh" (C09: a message handler).                             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

When(b, c) == IF b THEN {c} ELSE {}
Rng(q) == {q[i] : i \in 1..Len(q)}
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
RemoveFirst(q, x) ==
  IF Count(q, x) = 0 THEN q
  ELSE LET i == CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in 1..i-1 : q[j] # x
       IN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

-----------------------------------------------------------------------------
(* Part 1: the monitor                                                     *)
(* subs: notifier -> subscriptions in order.  st: firings in progress.     *)
EvtInit(cfg) ==
  [ kind |-> cfg.kind,
    pre  |-> IF cfg.kind = "event" THEN "C08." ELSE "C09.",
    subs |-> [n \in Rng(cfg.names) |-> <<>>],
    reg  |-> IF cfg.kind = "event" THEN Rng(cfg.names) ELSE {},
    ids  |-> [n \in Rng(cfg.names) |-> 0],   \* identity of the notifier handed out for n
    st   |-> <<>> ]

Firing(s, e) == [n |-> e.n, v |-> e.v, snap |-> s.subs[e.n], add |-> <<>>, rem |-> <<>>,
                 calls |-> <<>>, raised |-> {}, in |-> ""]
Top(s) == s.st[Len(s.st)]
SetTop(s, f) == [s EXCEPT !.st[Len(s.st)] = f]

\* how often key k must and may be called in firing f
Least(f, k) == IF Count(f.snap, k) > Count(f.rem, k) THEN Count(f.snap, k) - Count(f.rem, k) ELSE 0
Most(f, k) == Count(f.snap, k) + Count(f.add, k)
Steady(f) == {k \in Rng(f.snap) : Count(f.rem, k) = 0 /\ Count(f.add, k) = 0}
Keep(q, S) == SelectSeq(q, LAMBDA k : k \in S)
IsPrefix(p, q) == Len(p) <= Len(q) /\ \A i \in 1..Len(p) : p[i] = q[i]

EvtBad(s, e) ==
  LET p == s.pre IN
  CASE e.op = "sub" -> When(e.err # "", p \o "subscribe")
    [] e.op = "unsub" ->
         IF e.n \notin s.reg THEN {}
         ELSE When(Count(s.subs[e.n], e.k) > 0 /\ e.err # "", p \o "unsubscribe")
              \cup When(Count(s.subs[e.n], e.k) = 0 /\ e.err = "", p \o "unsubscribe_none")
    [] e.op = "clear" -> When(e.err # "", p \o "clear")
    [] e.op = "len" -> When(e.val # Len(s.subs[e.n]), p \o "len")
    [] e.op = "reg" -> When(e.err # "", p \o "register")
                       \cup When(s.ids[e.n] # 0 /\ e.id # s.ids[e.n], p \o "shared")
                       \cup When(\E n \in DOMAIN s.ids : n # e.n /\ s.ids[n] = e.id, p \o "own")
    [] e.op = "handled" -> When(e.val # (e.n \in s.reg), p \o "handled")
    [] e.op = "fire" -> {}
    [] e.op = "call" ->
         IF s.st = <<>> THEN {p \o "stray"}
         ELSE LET f == Top(s)
                  g == [f EXCEPT !.calls = Append(@, e.k)]
              IN When(e.v # f.v \/ ~e.args, p \o "args")
                 \cup When(Count(g.calls, e.k) > Most(g, e.k), p \o "once")
                 \cup When(~IsPrefix(Keep(g.calls, Steady(g)), Keep(g.snap, Steady(g))), p \o "order")
    [] e.op = "ret" -> {}
    [] e.op = "end" ->
         IF s.st = <<>> THEN {p \o "stray"}
         ELSE LET f == Top(s) IN
              When(f.raised = {} /\ e.err # "", p \o "error_made_up")
              \cup When(f.raised # {} /\ e.err \notin f.raised, IF s.kind = "mh" THEN "C09.swallowed" ELSE "C08.swallowed")
              \cup When(f.raised = {} /\ e.err = "" /\ \E k \in Rng(f.snap) : Count(f.calls, k) < Least(f, k), p \o "called")
    [] OTHER -> {}

EvtStep(s, e) ==
  CASE e.op = "sub" -> IF e.err # "" THEN s
         ELSE [s EXCEPT !.subs[e.n] = Append(@, e.k),
                        !.reg = @ \cup {e.n},
                        !.st = [i \in 1..Len(@) |-> IF @[i].n = e.n THEN [@[i] EXCEPT !.add = Append(@, e.k)] ELSE @[i]]]
    [] e.op = "unsub" -> IF e.err # "" THEN s
         ELSE [s EXCEPT !.subs[e.n] = RemoveFirst(@, e.k),
                        !.st = [i \in 1..Len(@) |-> IF @[i].n = e.n THEN [@[i] EXCEPT !.rem = Append(@, e.k)] ELSE @[i]]]
    [] e.op = "clear" ->
         [s EXCEPT !.subs[e.n] = <<>>,
                   !.st = [i \in 1..Len(@) |-> IF @[i].n = e.n THEN [@[i] EXCEPT !.rem = @ \o s.subs[e.n]] ELSE @[i]]]
    [] e.op = "reg" -> [s EXCEPT !.reg = @ \cup {e.n}, !.ids[e.n] = IF @ = 0 THEN e.id ELSE @]
    [] e.op = "fire" -> [s EXCEPT !.st = Append(@, Firing(s, e))]
    [] e.op = "call" -> IF s.st = <<>> THEN s ELSE SetTop(s, [Top(s) EXCEPT !.calls = Append(@, e.k)])
    [] e.op = "ret" -> IF s.st = <<>> \/ e.err = "" THEN s ELSE SetTop(s, [Top(s) EXCEPT !.raised = @ \cup {e.err}])
    [] e.op = "end" -> IF s.st = <<>> THEN s ELSE [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
    [] OTHER -> s

-----------------------------------------------------------------------------
(* Part 2: the design.  d.subs: notifier -> list; d.scr: key -> what its   *)
(* handler does the first time it is called (a list of operations).        *)
(* Every operation yields the new state and the log it produces.           *)
EDInit(cfg) == [subs |-> [n \in Rng(cfg.names) |-> <<>>],
                reg |-> IF cfg.kind = "event" THEN Rng(cfg.names) ELSE {},
                ids |-> [n \in Rng(cfg.names) |-> 0], next |-> 1,
                scr |-> [k \in {} |-> <<>>], kind |-> cfg.kind]

EReg(d, n) == IF n \in d.reg THEN d
              ELSE [d EXCEPT !.reg = @ \cup {n}, !.ids[n] = d.next, !.next = @ + 1]

RECURSIVE EDOp(_, _), EDFire(_, _, _), EDScript(_, _, _)

\* runs the operations of a handler; result <<state, log, error>>
EDScript(d, ops, log) ==
  IF ops = <<>> THEN <<d, log, "">>
  ELSE IF Head(ops).op = "raise" THEN <<d, log, Head(ops).err>>
  ELSE LET r == EDOp(d, Head(ops)) IN
       IF r[3] # "" THEN <<r[1], log \o r[2], r[3]>> ELSE EDScript(r[1], Tail(ops), log \o r[2])

\* calls the rest q of the snapshot with v
EDFire(d, q, v) ==
  IF q = <<>> THEN <<d, <<>>, "">>
  ELSE LET k == Head(q)
           ops == IF k \in DOMAIN d.scr THEN d.scr[k] ELSE <<>>
           d1 == [d EXCEPT !.scr = [x \in DOMAIN @ \ {k} |-> @[x]]]
           r == EDScript(d1, ops, <<>>)
           log == <<[op |-> "call", k |-> k, v |-> v, args |-> TRUE]>> \o r[2] \o <<[op |-> "ret", k |-> k, err |-> r[3]]>>
       IN IF r[3] # "" THEN <<r[1], log, r[3]>>
          ELSE LET t == EDFire(r[1], Tail(q), v) IN <<t[1], log \o t[2], t[3]>>

EDOp(d, op) ==
  CASE op.op = "sub" ->
         LET d1 == EReg(d, op.n) IN
         <<[d1 EXCEPT !.subs[op.n] = Append(@, op.k),
                      !.scr = IF op.script = <<>> THEN @ ELSE (op.k :> op.script) @@ @],
           (IF d.kind = "mh" THEN <<[op |-> "reg", n |-> op.n, id |-> d1.ids[op.n], err |-> ""]>> ELSE <<>>)
           \o <<[op |-> "sub", n |-> op.n, k |-> op.k, err |-> ""]>>, "">>
    [] op.op = "unsub" ->
         IF op.n \notin d.reg THEN <<d, <<>>, "">>
         ELSE LET has == Count(d.subs[op.n], op.k) > 0 IN
         <<[d EXCEPT !.subs[op.n] = RemoveFirst(@, op.k)],
           <<[op |-> "unsub", n |-> op.n, k |-> op.k, err |-> IF has THEN "" ELSE "ValueError"]>>, "">>
    [] op.op = "clear" -> <<[d EXCEPT !.subs[op.n] = <<>>], <<[op |-> "clear", n |-> op.n, err |-> ""]>>, "">>
    [] op.op = "len" -> <<d, IF op.n \in d.reg THEN <<[op |-> "len", n |-> op.n, val |-> Len(d.subs[op.n])]>> ELSE <<>>, "">>
    [] op.op = "reg" -> LET d1 == EReg(d, op.n) IN <<d1, <<[op |-> "reg", n |-> op.n, id |-> d1.ids[op.n], err |-> ""]>>, "">>
    [] op.op = "handled" -> <<d, <<[op |-> "handled", n |-> op.n, val |-> op.n \in d.reg]>>, "">>
    [] op.op = "fire" ->
         LET r == EDFire(d, d.subs[op.n], op.v) IN
         <<r[1], <<[op |-> "fire", n |-> op.n, v |-> op.v]>> \o r[2] \o <<[op |-> "end", n |-> op.n, err |-> r[3]]>>, r[3]>>
    [] OTHER -> <<d, <<>>, "">>

RECURSIVE EvtFold(_, _, _)
EvtFold(s, q, bad) == IF q = <<>> THEN <<s, bad>>
                      ELSE EvtFold(EvtStep(s, Head(q)), Tail(q), bad \cup EvtBad(s, Head(q)))
=============================================================================
