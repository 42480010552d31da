------------------------------- MODULE MC_Bld -------------------------------
(* Every history of up to Depth steps.  Blocks of the builders are numbered *)
(* together with the others in the design, so the two kinds of history are  *)
(* explored apart.                                                          *)
EXTENDS Bld, Json, IOUtils
CONSTANT Depth, Kind
Emit == IOEnv.VF_EMIT = "1"
VARIABLES d, mon, bad, h
vars == <<d, mon, bad, h>>
F(f, v) == [f |-> f, v |-> v]
O(r) == [err |-> ""] @@ r
Groups(n) == {<<>>} \cup {<<i>> : i \in 1..n} \cup {<<i, j>> : i, j \in 1..n} \cup {<<n, 1, n>> : i \in 1..n}
MsgSteps == {O([op |-> "blk", name |-> n, fs |-> fs]) : n \in {"Alpha", "Beta"}, fs \in {<<>>, <<F("A", ToString(Len(h)))>>}}
            \cup {O([op |-> "fld", b |-> i, f |-> f, v |-> ToString(Len(h))]) : i \in 1..Len(d.blks), f \in {"A", "B"}}
            \cup {O([op |-> "msg", name |-> "M" \o ToString(Len(d.msgs)), bs |-> g]) : g \in Groups(Len(d.blks))}
            \cup {O([op |-> "add", m |-> m, b |-> b]) : m \in 1..Len(d.msgs), b \in 1..Len(d.blks)}
Builders == {1, 2}
BldSteps == {O([op |-> "bnew", u |-> u, name |-> "M"]) : u \in Builders}
            \cup {O([op |-> "bnext", u |-> u, name |-> n]) : u \in {x \in Builders : \E i \in 1..Len(h) : h[i].op = "bnew" /\ h[i].u = x}, n \in {"Alpha", "Beta"}}
            \cup {O([op |-> "badd", u |-> u, f |-> f, v |-> ToString(Len(h))]) : u \in {x \in Builders : d.u[x].cur # 0}, f \in {"A", "B"}}
            \cup {O([op |-> "bbuild", u |-> u]) : u \in {x \in Builders : \E i \in 1..Len(h) : h[i].op = "bnew" /\ h[i].u = x}}
Init == d = D0 /\ mon = BldInit(<<>>) /\ bad = {} /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E x \in IF Kind = 0 THEN MsgSteps ELSE BldSteps :
             LET n == DDo(d, x)
                 obs == IF Kind = 0 THEN [i \in 1..Len(n.msgs) |-> DLook(n, i)] ELSE [i \in 1..2 |-> DBuild(n, i)]
                 r == Judge(mon, {}, (IF x.op = "bbuild" THEN <<>> ELSE <<x>>) \o obs)
             IN d' = n /\ mon' = r.s /\ bad' = r.b /\ h' = Append(h, x) /\ (Emit /\ Len(h') = Depth => PrintT("SCN " \o ToJson([ops |-> h'])))
Spec == Init /\ [][Next]_vars
Full == vars
NoBad == bad = {}
=============================================================================
