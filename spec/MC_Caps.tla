------------------------------ MODULE MC_Caps ------------------------------
(* Calls of every kind on two applications' capabilities and on granted     *)
(* ones, up to Over of them under way at once, with replies of every kind.  *)
EXTENDS Caps, Json, IOUtils
CONSTANT Depth, Over
Emit == IOEnv.VF_EMIT = "1"
VARIABLES w, mon, bad, h, n
vars == <<w, mon, bad, h, n>>
Roots == <<[name |-> "rootA", client |-> "A", url |-> "u/A"], [name |-> "rootB", client |-> "B", url |-> "u/B"]>>
Kinds == {[kind |-> "get", pt |-> "dict", names |-> <<>>], [kind |-> "post", pt |-> "dict", names |-> <<>>], [kind |-> "post", pt |-> "list", names |-> <<>>],
          [kind |-> "post", pt |-> "other", names |-> <<>>], [kind |-> "custom", pt |-> "dict", names |-> <<>>],
          [kind |-> "seed", pt |-> "dict", names |-> <<"one">>], [kind |-> "seed", pt |-> "dict", names |-> <<"two", "one", "two">>]}
Replies == {[code |-> 200, ct |-> t, body |-> "llsd"] : t \in {Llsd, "application/xml", "text/html", "text/plain", "text/xml", ""}}
           \cup {[code |-> 200, ct |-> t, body |-> "junk"] : t \in {Llsd, "text/html"}}
           \cup {[code |-> c, ct |-> Llsd, body |-> "llsd"] : c \in {404, 500}}
           \cup {[code |-> 201, ct |-> Llsd, body |-> "llsd"]}
\* the server grants every name asked for, and one more; now and then it leaves one out
Grant(c, names, all) == [i \in 1..(IF all THEN 3 ELSE 1) |-> [n |-> <<"one", "two", "more">>[i], u |-> "g/" \o ToString(c) \o "/" \o <<"one", "two", "more">>[i]]]
Init == w = C0(Roots) /\ mon = CapsInit([roots |-> Roots]) /\ bad = {} /\ h = <<>> /\ n = 1
Do(x, o) == LET r == Judge(mon, {}, x.ev) IN
            /\ w' = x.w /\ mon' = r.s /\ bad' = r.b /\ h' = Append(h, o)
            /\ (Emit /\ x.w.pend = <<>> => PrintT("SCN " \o ToJson([ops |-> h'])))
\* only applications' own capabilities are seeds
Begin == /\ Len(w.pend) < Over
         /\ \E k \in Kinds, i \in 1..Len(w.caps) :
              /\ k.kind = "seed" => w.caps[i].by = 0
              /\ Do(Start(w, [c |-> n, kind |-> k.kind, cap |-> i, pt |-> k.pt, pay |-> "p" \o ToString(n), hdrs |-> <<[k |-> "x-one", v |-> ToString(n)]>>, names |-> k.names]),
                    [op |-> "start", c |-> n, kind |-> k.kind, by |-> w.caps[i].by, name |-> w.caps[i].name, pt |-> k.pt, names |-> k.names])
              /\ n' = n + 1
Reply == \E i \in 1..Len(w.pend), r \in Replies, all \in BOOLEAN :
           LET k == w.pend[i]
               rr == [code |-> r.code, ct |-> r.ct, body |-> r.body, data |-> "d" \o ToString(n), caps |-> IF k.kind = "seed" THEN Grant(k.c, k.names, all) ELSE <<>>]
           IN /\ (k.kind # "seed" => all)
              /\ Do(Finish(w, i, rr), [op |-> "finish", c |-> k.c, rep |-> rr]) /\ UNCHANGED n
Next == Len(h) < Depth /\ (Begin \/ Reply)
Spec == Init /\ [][Next]_vars
Full == vars
View == <<w, mon, bad, n>>
NoBad == bad = {}
=============================================================================
