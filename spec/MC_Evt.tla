------------------------------ MODULE MC_Evt ------------------------------
EXTENDS Evt, Json, IOUtils
CONSTANT Depth
Kind == IOEnv.VF_KIND
Emit == IOEnv.VF_EMIT = "1"
VARIABLES d, m, bad, hist

Names == IF Kind = "event" THEN <<"E">> ELSE <<"E", "F">>
Cfg == [kind |-> Kind, names |-> Names]
Keys == {"h1:a", "h2:a", "h1:b"}
N == Rng(Names)

Sub(n, k, s) == [op |-> "sub", n |-> n, k |-> k, script |-> s]
Unsub(n, k) == [op |-> "unsub", n |-> n, k |-> k]
Fire(n) == [op |-> "fire", n |-> n, v |-> "v"]
Clear(n) == [op |-> "clear", n |-> n]
Raise == [op |-> "raise", err |-> "KeyError"]

Scripts(n, k) ==
  {<<>>, <<Unsub(n, k)>>, <<Unsub(n, "h2:a")>>, <<Unsub(n, "h1:a")>>, <<Sub(n, "h3:a", <<>>)>>, <<Sub(n, k, <<>>)>>,
   <<Fire(n)>>, <<Raise>>, <<Unsub(n, k), Raise>>, <<Unsub(n, k), Sub(n, k, <<>>)>>}
  \cup (IF Kind = "event" THEN {<<Clear(n)>>, <<Clear(n), Sub(n, "h2:a", <<>>)>>} ELSE {<<Fire("F")>>, <<Unsub(n, "h1:a"), Fire(n)>>})

Ops == UNION {{Fire(n)} \cup {Unsub(n, k) : k \in Keys}
              \cup UNION {{Sub(n, k, s) : s \in Scripts(n, k)} : k \in Keys}
              \cup (IF Kind = "event" THEN {Clear(n)} ELSE {[op |-> "reg", n |-> n], [op |-> "handled", n |-> n]})
              \cup {[op |-> "len", n |-> n]} : n \in N}

Init == d = EDInit(Cfg) /\ m = EvtInit(Cfg) /\ bad = {} /\ hist = <<>>
Next == \E op \in Ops :
  /\ Len(hist) < Depth
  /\ LET r == EDOp(d, op)
         f == EvtFold(m, r[2], {})
     IN d' = r[1] /\ m' = f[1] /\ bad' = f[2]
  /\ hist' = Append(hist, op)
  /\ (Emit => PrintT("SCN " \o ToJson(hist')))
Spec == Init /\ [][Next]_<<d, m, bad, hist>>
View == <<d, m, bad>>

DesignOk == bad = {}
Agree == m.subs = d.subs /\ m.reg = d.reg /\ m.st = <<>>
=============================================================================
