------------------------------- MODULE Wait -------------------------------
(* The timer of helpers.Wait: a call that keeps its coroutine for a number *)
(* of whole seconds while others run, and can be stopped.  Time is counted *)
(* in eighths of a second.  Part 1: the clauses of C29.  Part 2: the       *)
(* design.                                                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
When(b, c) == IF b THEN {c} ELSE {}
Rng(q) == {q[i] : i \in 1..Len(q)}

(* waiters: i -> [start, dur, st "waiting" or "ended", stop] *)
WaitInit(cfg) == [w |-> <<>>]
Due(x, now) == x.stop \/ now - x.start >= 8 * x.dur
Starts(e) == e.op \in {"start", "again"}
Started(s, e) ==
  IF e.op = "start" THEN Append(s.w, [start |-> e.t0, dur |-> e.dur, st |-> "waiting", stop |-> FALSE])
  ELSE IF e.op = "again" THEN [s.w EXCEPT ![e.i].start = e.t0, ![e.i].st = "waiting", ![e.i].stop = FALSE]
  ELSE IF e.op = "stop" THEN [s.w EXCEPT ![e.i].stop = TRUE]
  ELSE s.w
\* e.done[i]: waiter i is not waiting any more; e.now: the time then
WaitBad(s, e) ==
  LET w == Started(s, e)
      on == [i \in 1..Len(w) |-> w[i].st = "waiting"]
      turn == IF Starts(e) \/ (e.op = "turn" /\ e.turned) THEN {e.i} ELSE {}
  IN When(\E i \in turn : on[i] /\ e.done[i] /\ ~Due(w[i], e.now), "C29.early")
     \cup When(e.op = "turn" /\ \E i \in turn : on[i] /\ ~e.done[i] /\ Due(w[i], e.now), IF w[e.i].stop THEN "C29.stop" ELSE "C29.late")
     \* it may nap, but not for a second more than it should
     \cup When(e.op = "turn" /\ ~e.turned /\ on[e.i] /\ e.now - w[e.i].start >= 8 * w[e.i].dur + 8, "C29.late")
     \cup When(\E i \in 1..Len(w) : i \notin turn /\ e.done[i] # ~on[i], "C29.other")
     \cup When(e.ret \notin {"", "True"}, "C29.true")
     \cup When(e.err = "Busy", "C29.block")
     \cup When(e.err \notin {"", "Busy"}, "C29.error")
WaitStep(s, e) ==
  LET w == Started(s, e)
  IN [w |-> [i \in 1..Len(w) |-> [w[i] EXCEPT !.st = IF e.done[i] THEN "ended" ELSE "waiting"]]]

-----------------------------------------------------------------------------
(* Part 2: enabled, the start, and the loop that sleeps; a sleep may fail, *)
(* in which case time has passed all the same.                             *)
TInit == [t |-> 0, w |-> <<>>]
RECURSIVE Loop(_, _, _, _)
\* the waiter looks at the clock, and either ends or sleeps; the first k sleeps fail, each after dt
Loop(d, i, k, dt) ==
  LET x == d.w[i] IN
  IF ~x.enabled \/ d.t - x.start >= 8 * x.dur THEN [d EXCEPT !.w[i].on = FALSE]
  ELSE IF k = 0 THEN d
  ELSE Loop([d EXCEPT !.t = @ + dt], i, k - 1, dt)
Done(d) == [i \in 1..Len(d.w) |-> ~d.w[i].on]
TObs(d0, d, op, turned) == op @@ [t0 |-> d0.t, now |-> d.t, done |-> Done(d), turned |-> turned, err |-> "",
                                  ret |-> IF op.op \in {"again", "turn"} /\ ~d.w[op.i].on THEN "True" ELSE ""]
TDo(d, op) ==
  LET n == CASE op.op = "start" -> Loop([d EXCEPT !.w = Append(@, [start |-> d.t, dur |-> op.dur, enabled |-> TRUE, on |-> TRUE])], op.i, op.k, op.dt)
             [] op.op = "again" -> Loop([d EXCEPT !.w[op.i].start = d.t, !.w[op.i].enabled = TRUE, !.w[op.i].on = TRUE], op.i, op.k, op.dt)
             [] op.op = "turn" -> IF d.w[op.i].on THEN Loop(d, op.i, op.k, op.dt) ELSE d
             [] op.op = "stop" -> [d EXCEPT !.w[op.i].enabled = FALSE]
             [] op.op = "pass" -> [d EXCEPT !.t = @ + op.dt]
  IN <<n, TObs(d, n, op, op.op = "turn" /\ d.w[op.i].on)>>
=============================================================================
