-------------------------------- MODULE Caps --------------------------------
(***************************************************************************)
(* Capabilities: calls that overlap on shared clients, what the server     *)
(* sees and what the caller gets.  Part 1: the clauses of C19 and C20.     *)
(* Part 2: the design.  Events (c numbers the call):                       *)
(*  call: c, kind "get" | "post" | "custom" | "seed", cap: [by, name] (by: *)
(*        0 for a capability made by the application, whose name is then   *)
(*        its client and address; else the seed call that granted it),     *)
(*        pt "dict" | "list" | "other", pay, hdrs, names                   *)
(*  req:  c, client, url, meth, ct, pay, hdrs, names (of a map with the    *)
(*        one entry capabilities, a list of strings; else <<"?">>)         *)
(*  rep:  c, code, ct, body "llsd" | "html" | "junk", data, caps           *)
(*  out:  c, what "data" | "caps" | "notfound" | "resource" | "nodeser" |  *)
(*        "other", data, url, code, meth, caps                             *)
(* hdrs: sequence of [k, v], k in lower case (of a request, those of the   *)
(* names callers use); caps: sequence of [n, u].    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

When(b, c) == IF b THEN {c} ELSE {}
Rng(q) == {q[i] : i \in 1..Len(q)}

\* roots: sequence of [name, client, url]
CapsInit(cfg) == [roots |-> cfg.roots, calls |-> <<>>, grants |-> <<>>]

\* address and client a capability must have
Where(s, cap) == IF cap.by = 0 THEN LET i == CHOOSE i \in 1..Len(s.roots) : s.roots[i].name = cap.name IN [url |-> s.roots[i].url, client |-> s.roots[i].client]
                 ELSE LET i == CHOOSE i \in 1..Len(s.grants) : s.grants[i].by = cap.by /\ s.grants[i].n = cap.name IN [url |-> s.grants[i].u, client |-> s.grants[i].client]
Has(s, c) == \E i \in 1..Len(s.calls) : s.calls[i].c = c
Call(s, c) == s.calls[CHOOSE i \in 1..Len(s.calls) : s.calls[i].c = c]
Put(s, c, x) == [s EXCEPT !.calls = [i \in 1..Len(@) |-> IF @[i].c = c THEN x ELSE @[i]]]

CapsStep(s, e) ==
  CASE e.op = "call" -> LET at == Where(s, e.cap) IN
                        [s EXCEPT !.calls = Append(@, [c |-> e.c, kind |-> e.kind, by |-> e.cap.by, url |-> at.url, client |-> at.client, pt |-> e.pt, pay |-> e.pay,
                                                       hdrs |-> e.hdrs, names |-> e.names, reqs |-> 0, rep |-> <<>>, over |-> FALSE])]
    [] e.op = "req" -> IF Has(s, e.c) THEN Put(s, e.c, [Call(s, e.c) EXCEPT !.reqs = @ + 1]) ELSE s
    [] e.op = "rep" -> IF Has(s, e.c) THEN Put(s, e.c, [Call(s, e.c) EXCEPT !.rep = <<e>>]) ELSE s
    [] e.op = "out" -> LET k == Call(s, e.c)
                           new == IF k.kind = "seed" /\ e.what = "caps" /\ k.rep # <<>>
                                  THEN SelectSeq([i \in 1..Len(k.rep[1].caps) |-> [by |-> e.c, n |-> k.rep[1].caps[i].n, u |-> k.rep[1].caps[i].u, client |-> k.client]],
                                                 LAMBDA g : g.n \in Rng(k.names)) ELSE <<>>
                       IN [Put(s, e.c, [k EXCEPT !.over = TRUE]) EXCEPT !.grants = @ \o new]
    [] OTHER -> s

Method(kind) == IF kind = "get" THEN "GET" ELSE "POST"
Llsd == "application/llsd+xml"
\* "yes": this reply holds data; "no": its content type is unsupported; "bad": it holds none; "open": either
Holds(kind, r) ==
  CASE r.ct = Llsd -> IF r.body = "llsd" THEN "yes" ELSE IF r.body = "html" THEN "open" ELSE "bad"
    [] r.ct = "application/xml" -> IF kind = "get" THEN "open" ELSE IF r.body = "llsd" THEN "yes" ELSE IF r.body = "html" THEN "open" ELSE "bad"
    [] r.ct = "text/html" -> IF r.body = "llsd" THEN (IF kind = "get" THEN "open" ELSE "yes") ELSE "no"
    [] OTHER -> "no"

\* what a call may give: its outcome o, after the reply r
Outcome(k, r, o) ==
  CASE r.code = 404 -> When(o.what # "notfound" \/ o.url # k.url, "C19.notfound")
    [] r.code >= 400 -> When(o.what # "resource" \/ o.url # k.url \/ o.code # r.code \/ o.meth # Method(k.kind), "C19.resource")
    [] OTHER -> LET h == Holds(k.kind, r) IN
         CASE h = "no" -> When(o.what # "nodeser", "C19.nodeser")
           [] h = "bad" -> When(o.what \in {"data", "caps"}, "C19.made")
           [] h = "open" -> {}
           [] k.kind # "seed" -> When(o.what # "data" \/ o.data # r.data, "C19.data")
           [] ~(Rng(k.names) \subseteq {r.caps[i].n : i \in 1..Len(r.caps)}) -> {}
           [] OTHER -> When(o.what # "caps" \/ Rng(o.caps) # {g \in Rng(r.caps) : g.n \in Rng(k.names)}, "C20.caps")
CapsBad(s, e) ==
  CASE e.op = "req" -> IF ~Has(s, e.c) THEN {"C19.once"} ELSE
                       LET k == Call(s, e.c)
                       IN When(k.reqs # 0 \/ k.over, "C19.once") \cup When(k.pt = "other", "C19.unsup")
                          \cup When(k.kind = "seed" /\ (k.reqs # 0 \/ k.over), "C20.once")
                          \cup When(k.by # 0 /\ e.url # k.url, "C20.addr")
                          \cup When(e.url # k.url, "C19.addr") \cup When(e.client # k.client, "C20.client")
                          \cup When(e.meth # Method(k.kind), "C19.method")
                          \cup When(k.kind \in {"post", "custom"} /\ e.pay # k.pay, "C19.payload")
                          \cup When(k.kind = "seed" /\ (Rng(e.names) # Rng(k.names) \/ Len(e.names) > Len(k.names)), "C20.names")
                          \cup When(k.kind \in {"post", "seed"} /\ e.ct # Llsd, "C19.ctype")
                          \cup When(Rng(e.hdrs) # Rng(k.hdrs), "C19.headers")
    [] e.op = "out" -> LET k == Call(s, e.c) IN
                       \* what the caller passed in is the caller's
                       When(~e.same, "C19.args") \cup When(~e.same /\ k.kind = "seed", "C20.args") \cup
                       (IF k.pt = "other" THEN When(e.what # "nodeser", "C19.unsup")
                       ELSE IF k.rep = <<>> THEN {"C19.once"} \cup When(k.kind = "seed", "C20.once") ELSE Outcome(k, k.rep[1], e))
    [] OTHER -> {}

RECURSIVE Judge(_, _, _)
Judge(s, b, es) == IF es = <<>> THEN [s |-> s, b |-> b] ELSE Judge(CapsStep(s, Head(es)), b \cup CapsBad(s, Head(es)), Tail(es))

-----------------------------------------------------------------------------
(* Part 2: the design.  caps: what the application holds (by, name, url,    *)
(* client); pend: calls under way, each with what its frame remembers.      *)
C0(roots) == [caps |-> [i \in 1..Len(roots) |-> [by |-> 0, name |-> roots[i].name, url |-> roots[i].url, client |-> roots[i].client]], pend |-> <<>>]
Say(w, es) == [w |-> w, ev |-> es]
Out(c, what, data, url, code, meth, caps) == [op |-> "out", c |-> c, what |-> what, data |-> data, url |-> url, code |-> code, meth |-> meth, caps |-> caps, same |-> TRUE]
\* start a call x: [c, kind, cap (index), pt, pay, hdrs, names]
Start(w, x) ==
  LET cap == w.caps[x.cap]
      call == [op |-> "call", c |-> x.c, kind |-> x.kind, cap |-> [by |-> cap.by, name |-> cap.name], pt |-> x.pt, pay |-> x.pay, hdrs |-> x.hdrs, names |-> x.names]
  IN IF x.pt = "other" THEN Say(w, <<call, Out(x.c, "nodeser", "", "", 0, "", <<>>)>>)
     ELSE Say([w EXCEPT !.pend = Append(@, [c |-> x.c, kind |-> x.kind, url |-> cap.url, client |-> cap.client, names |-> x.names])],
              <<call, [op |-> "req", c |-> x.c, client |-> cap.client, url |-> cap.url, meth |-> Method(x.kind), ct |-> IF x.kind \in {"post", "seed"} THEN Llsd ELSE "",
                       pay |-> x.pay, hdrs |-> x.hdrs, names |-> IF x.kind = "seed" THEN x.names ELSE <<"?">>]>>)
\* the reply to the i-th of the calls under way: [code, ct, body, data, caps]
Finish(w, i, r) ==
  LET k == w.pend[i]
      rest == SelectSeq(w.pend, LAMBDA p : p.c # k.c)
      rep == [op |-> "rep", c |-> k.c, code |-> r.code, ct |-> r.ct, body |-> r.body, data |-> r.data, caps |-> r.caps]
      end(what, data) == Out(k.c, what, data, k.url, r.code, Method(k.kind), <<>>)
      parsed == IF k.kind = "get" THEN r.ct = Llsd ELSE r.ct \in {Llsd, "application/xml"} \/ (r.ct = "text/html" /\ r.body = "llsd")
      mine == SelectSeq(r.caps, LAMBDA g : g.n \in Rng(k.names))
      all == Rng(k.names) \subseteq {r.caps[j].n : j \in 1..Len(r.caps)}
      gone == [w EXCEPT !.pend = rest]
  IN CASE r.code = 404 -> Say(gone, <<rep, end("notfound", "")>>)
       [] r.code >= 400 -> Say(gone, <<rep, end("resource", "")>>)
       [] ~parsed -> Say(gone, <<rep, end("nodeser", "")>>)
       [] r.body # "llsd" -> Say(gone, <<rep, end("other", "")>>)
       [] k.kind = "seed" /\ all -> Say([gone EXCEPT !.caps = @ \o [j \in 1..Len(mine) |-> [by |-> k.c, name |-> mine[j].n, url |-> mine[j].u, client |-> k.client]]],
                                        <<rep, [end("caps", "") EXCEPT !.caps = mine]>>)
       [] k.kind = "seed" -> Say(gone, <<rep, end("other", "")>>)
       [] OTHER -> Say(gone, <<rep, end("data", r.data)>>)
=============================================================================
