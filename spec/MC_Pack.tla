------------------------------ MODULE MC_Pack ------------------------------
EXTENDS Pack, Json, IOUtils
CONSTANT Depth
Emit == IOEnv.VF_EMIT = "1"
VARIABLES buf, m, bad, hist

T == {"U8", "S8", "U16", "S16", "U32", "S32", "F32", "IP_PORT"}
Ns == {0, 1, 127, 128, 255, 256, 40000, 65535, 65536, 16777215, 1073741824, -1, -128, -129, -32768, -32769, -16777216}
Orders == {"", "big", "little"}
Small == \A i \in 1..Len(hist) : hist[i].op # "get"
Ops == {o \in {[op |-> "put", t |-> t, order |-> o, n |-> n, off |-> 0] : t \in T, o \in Orders, n \in Ns} : o.t = "F32" => Abs(o.n) < 16777216}
       \cup {[op |-> "get", t |-> t, order |-> o, n |-> 0, off |-> f] : t \in T, o \in Orders, f \in 0..Len(buf)}
Init == buf = <<>> /\ m = PackInit(<<>>) /\ bad = {} /\ hist = <<>>
Next == \E op \in Ops :
  /\ Len(hist) < Depth
  /\ (op.op = "get" => Len(buf) > 0)
  /\ LET r == DDo(buf, op) IN buf' = r[1] /\ m' = PackStep(m, r[2]) /\ bad' = PackBad(m, r[2])
  /\ hist' = Append(hist, op)
  /\ (Emit => PrintT("SCN " \o ToJson(hist')))
Spec == Init /\ [][Next]_<<buf, m, bad, hist>>
View == <<buf, m, bad>>

DesignOk == bad = {}
\* sixteen and eight bits in full
ASSUME \A n \in -32768..32767 : Read("S16", "", LE(n, 2)) = <<IntVal(n)>>
ASSUME \A n \in 0..65535 : Read("U16", "big", Rev(LE(n, 2))) = <<IntVal(n)>>
ASSUME \A n \in 0..255 : Read("U8", "", <<n>>) = <<IntVal(n)>> /\ Read("S8", "", <<n>>) = <<IntVal(IF n > 127 THEN n - 256 ELSE n)>>
\* doubles: one, minus two and a half, the smallest, a third
ASSUME Read("F64", "", <<0, 0, 0, 0, 0, 0, 240, 63>>) = <<[neg |-> FALSE, bits |-> <<1>>, e |-> 0]>>
ASSUME Read("F64", "big", <<192, 4, 0, 0, 0, 0, 0, 0>>) = <<[neg |-> TRUE, bits |-> <<1, 0, 1>>, e |-> -1]>>
ASSUME Read("F64", "", <<1, 0, 0, 0, 0, 0, 0, 0>>) = <<[neg |-> FALSE, bits |-> <<1>>, e |-> -1074]>>
ASSUME Read("F64", "big", <<63, 213, 85, 85, 85, 85, 85, 85>>)[1].e = -54
=============================================================================
