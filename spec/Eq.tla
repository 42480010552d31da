--------------------------------- MODULE Eq ---------------------------------
(***************************************************************************)
(* The region event queue: polls, responses, events, and the messages they *)
(* become.  Part 1: the clauses of C17 and C18.  Part 2: the design.       *)
(* Events:                                                                 *)
(*  enter, gone (err), stop (err)                                          *)
(*  poll: ack ("" for none), done, extra (anything else in the payload)    *)
(*  res: kind "ok" | "err" | "none" | "bad", id, evs (of an "ok" response: *)
(*       name, t (a template has this name), body)                         *)
(*  hand: the recording handler of name was called: name, id (tag), blocks,*)
(*        host (the queue's host is on the message)                        *)
(*  live, end                                                              *)
(* A body is, for a template name, a sequence of [b, is] in order of block *)
(* name, with is a sequence of instances, each a sequence of [f, v] in     *)
(* order of field name; for another name one such instance.  Blocks of a   *)
(* message likewise.  Values are tokens.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

When(b, c) == IF b THEN {c} ELSE {}
Rng(q) == {q[i] : i \in 1..Len(q)}

EqInit(cfg) == [subs |-> Rng(cfg.subs), last |-> {""}, due |-> <<>>, stopped |-> FALSE, polls |-> 0, done |-> FALSE, entered |-> FALSE,
                gone |-> FALSE, fpolls |-> 0]

Due(s, e) == SelectSeq([i \in 1..Len(e.evs) |-> [name |-> e.evs[i].name, id |-> e.id, t |-> e.evs[i].t, body |-> e.evs[i].body]],
                       LAMBDA x : x.name \in s.subs)
EqStep(s, e) ==
  CASE e.op = "poll" -> [s EXCEPT !.last = {e.ack}, !.polls = IF s.stopped THEN @ + 1 ELSE @, !.done = e.done, !.fpolls = @ + 1]
    [] e.op = "res" -> [s EXCEPT !.last = CASE e.kind = "ok" -> {e.id}
                                            [] e.kind = "none" -> @ \cup {""}
                                            [] e.kind = "bad" -> @ \cup (IF e.id = "" THEN {} ELSE {e.id})
                                            [] OTHER -> @,
                                 !.due = IF e.kind = "ok" /\ ~s.done THEN Due(s, e) ELSE <<>>]
    [] e.op = "hand" -> [s EXCEPT !.due = IF @ = <<>> THEN @ ELSE Tail(@)]
    [] e.op = "stop" -> [s EXCEPT !.stopped = TRUE]
    [] e.op = "enter" -> [s EXCEPT !.entered = TRUE]
    [] e.op = "gone" -> [s EXCEPT !.gone = TRUE]
    [] e.op = "fair" -> [s EXCEPT !.fpolls = 0]
    [] OTHER -> s

\* what the message must hold
NonEmpty(bs) == SelectSeq(bs, LAMBDA b : b.is # <<>>)
Content(d, bl) ==
  IF d.t THEN When([i \in 1..Len(NonEmpty(bl)) |-> <<NonEmpty(bl)[i].b, Len(NonEmpty(bl)[i].is)>>]
                   # [i \in 1..Len(NonEmpty(d.body)) |-> <<NonEmpty(d.body)[i].b, Len(NonEmpty(d.body)[i].is)>>], "C18.blocks")
              \cup When(NonEmpty(bl) # NonEmpty(d.body), "C18.fields")
  ELSE When(Len(NonEmpty(bl)) > 1 \/ (Len(NonEmpty(bl)) = 1 /\ Len(NonEmpty(bl)[1].is) # 1), "C18.blocks")
       \cup When((IF NonEmpty(bl) = <<>> THEN <<>> ELSE NonEmpty(bl)[1].is[1]) # d.body, "C18.fields")

EqBad(s, e) ==
  CASE e.op = "poll" -> When(s.due # <<>>, "C17.lost") \cup When(s.due # <<>>, "C18.lost")
                        \cup When(e.ack \notin s.last, IF e.done THEN "C17.final" ELSE "C17.ack")
                        \cup When(e.extra, "C17.payload")
                        \cup When(e.done /\ e.ack = "", "C17.final")
                        \cup When(e.done /\ ~s.stopped, "C17.early")
                        \cup When(~e.done /\ s.stopped /\ s.polls >= 1, "C17.polls")
                        \cup When(s.done \/ s.gone, "C17.after")
    [] e.op = "hand" -> IF s.due = <<>> THEN {"C17.extra", "C18.extra"}
                        ELSE LET d == Head(s.due) IN
                             When(e.name # d.name, "C17.order") \cup When(e.name # d.name, "C18.order") \cup When(e.id # d.id, "C17.tag")
                             \cup (IF e.name = d.name THEN Content(d, e.blocks) ELSE {})
    [] e.op = "gone" -> When(~s.stopped, "C17.dead") \cup When(s.due # <<>>, "C17.lost") \cup When(s.due # <<>>, "C18.lost")
                        \cup When(s.stopped /\ s.entered /\ ~s.done /\ "" \notin s.last, "C17.final")
    [] e.op = "stop" -> When(e.err # "", "C17.stoperr")
    [] e.op = "live" -> When(s.fpolls = 0, "C17.idle")
    \* messages a handler was given stay as they were
    [] e.op = "end" -> When(~s.gone, "C17.end") \cup When(~e.kept, "C18.kept")
    [] OTHER -> {}

RECURSIVE Judge(_, _, _)
Judge(s, b, es) == IF es = <<>> THEN [s |-> s, b |-> b] ELSE Judge(EqStep(s, Head(es)), b \cup EqBad(s, Head(es)), Tail(es))

-----------------------------------------------------------------------------
(* Part 2: the design.  w: pc ("new", "sleep", "post", "fin", "dead"), stp,  *)
(* last ("" or an id), ev (what happened); yp: posting yields.               *)
W0(yp) == [yp |-> yp, pc |-> "new", stp |-> FALSE, last |-> "", ev |-> <<>>]
Say(w, e) == [w EXCEPT !.ev = Append(@, e)]
DStop(w) == Say([w EXCEPT !.stp = TRUE], [op |-> "stop", err |-> ""])
Dead(w) == Say([w EXCEPT !.pc = "dead"], [op |-> "gone", err |-> ""])
Poll(w, done) == Say(w, [op |-> "poll", ack |-> w.last, done |-> done, extra |-> FALSE])
Loop(w) == IF ~w.stp THEN [w EXCEPT !.pc = "sleep"]
           ELSE IF w.last = "" THEN Dead(w)
           ELSE IF w.yp THEN [Poll(w, TRUE) EXCEPT !.pc = "fin"]
           ELSE Dead(Poll(w, TRUE))
\* the message of an event
Blocks(v) == IF v.t THEN v.body ELSE <<[b |-> "Message_Data", is |-> <<v.body>>]>>
RECURSIVE Hands(_, _, _)
Hands(w, id, evs) ==
  IF evs = <<>> THEN w
  ELSE LET v == Head(evs)
           x == Say(w, [op |-> "hand", name |-> v.name, id |-> id, blocks |-> Blocks(v)])
       IN Hands(IF v.name = "Stopper" THEN DStop(x) ELSE x, id, Tail(evs))
Got(w, r) ==
  LET x == Say(w, [op |-> "res", kind |-> r.kind, id |-> r.id, evs |-> r.evs]) IN
  CASE r.kind = "ok" -> Loop(Hands([x EXCEPT !.last = r.id], r.id, r.evs))
    [] r.kind = "none" -> Loop([x EXCEPT !.last = ""])
    [] r.kind = "bad" -> Loop(IF r.id = "" THEN x ELSE [x EXCEPT !.last = r.id])
    [] OTHER -> Loop(x)
Step(w, r) ==
  CASE w.pc = "new" -> Loop(Say(w, [op |-> "enter"]))
    [] w.pc = "sleep" -> LET x == Poll(w, FALSE) IN IF w.yp THEN [x EXCEPT !.pc = "post"] ELSE Got(x, r)
    [] w.pc = "post" -> Got(w, r)
    [] OTHER -> Dead(w)
=============================================================================
