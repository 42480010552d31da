------------------------------ MODULE MC_Wait ------------------------------
EXTENDS Wait, Json, IOUtils
CONSTANT Depth
Emit == IOEnv.VF_EMIT = "1"
VARIABLES d, m, bad, hist

I == 1..Len(d.w)
Ops == (IF Len(d.w) < 2 THEN {[op |-> "start", i |-> Len(d.w) + 1, dur |-> n, k |-> k, dt |-> 8] : n \in {0, 1, 2}, k \in {0, 1}} ELSE {})
       \cup {[op |-> "turn", i |-> i, k |-> k, dt |-> 9] : i \in {j \in I : d.w[j].on}, k \in {0, 1, 2}}
       \cup {[op |-> "again", i |-> i, k |-> 0, dt |-> 0] : i \in {j \in I : ~d.w[j].on}}
       \cup {[op |-> "stop", i |-> i] : i \in I}
       \cup {[op |-> "pass", dt |-> n] : n \in {1, 7, 8}}
Init == d = TInit /\ m = WaitInit(<<>>) /\ bad = {} /\ hist = <<>>
Next == \E op \in Ops :
  /\ Len(hist) < Depth
  /\ LET r == TDo(d, op) IN d' = r[1] /\ m' = WaitStep(m, r[2]) /\ bad' = WaitBad(m, r[2])
  /\ hist' = Append(hist, op)
  /\ (Emit => PrintT("SCN " \o ToJson(hist')))
Spec == Init /\ [][Next]_<<d, m, bad, hist>>
View == <<d, m, bad>>

DesignOk == bad = {}
\* nobody waits on at a turn of its own once it is due; and it has waited in full unless stopped
Agree == \A i \in I : (m.w[i].st = "waiting") = d.w[i].on
=============================================================================
