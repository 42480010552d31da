------------------------------ MODULE Codec ------------------------------
(***************************************************************************)
(* Datagrams as sequences of bytes.                                        *)
(*                                                                         *)
(* A template is [name, freq, num, blocks], a block [name, kind, n,        *)
(* fields], a field [name, type, size].  The content of a message is       *)
(* "insts": for every block of the template, in order, the sequence of its *)
(* instances, each the sequence of its field values in template order.     *)
(* Values are byte sequences: numbers in big-endian two's complement or    *)
(* IEEE form of their declared width, vectors as the concatenation of      *)
(* their components, rotations as X Y Z W, everything else as raw bytes.   *)
(*                                                                         *)
(* Part 1: the wire layout (Match, Decode) and the clauses of C10-C12.     *)
(* Part 2: the design: the encoder and decoder as the library works.       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

When(b, c) == IF b THEN {c} ELSE {}
Rng(q) == {q[i] : i \in 1..Len(q)}
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Part(q, p, n) == SubSeq(q, p, p + n - 1)      \* n elements from position p
From(q, p) == SubSeq(q, p, Len(q))
Bit(x, b) == (x \div b) % 2 = 1
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Concat(_)
Concat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Concat(Tail(qs))

ACKF == 16
RESF == 32
RELF == 64
ZERF == 128

Numeric == {"U16", "U32", "U64", "S16", "S32", "S64", "F32", "F64"}
Float4 == {"F32", "LLVector3", "LLVector4"}

\* a value as it stands on the wire (numbers and vectors little-endian), except rotations
RevEach(v, w) == [i \in 1..Len(v) |-> LET k == (i - 1) \div w IN v[k * w + w - ((i - 1) % w)]]
OnWire(f, v) ==
  CASE f.type \in Numeric -> Rev(v)
    [] f.type \in {"LLVector3", "LLVector4"} -> RevEach(v, 4)
    [] f.type = "LLVector3d" -> RevEach(v, 8)
    [] OTHER -> v
OffWire(f, b) == OnWire(f, b)                  \* reversing is its own inverse

IsNaN4(b) == b[1] % 128 = 127 /\ b[2] >= 128 /\ (b[2] % 128 # 0 \/ b[3] # 0 \/ b[4] # 0)

\* IEEE single (big-endian bytes) as a fixed point number, scaled by 2^14; only for magnitudes up to 1
Fx(b) ==
  LET e == (b[1] % 128) * 2 + b[2] \div 128
      m == (b[2] % 128) * 65536 + b[3] * 256 + b[4] + (IF e = 0 THEN 0 ELSE 8388608)
      sh == 136 - e                           \* m * 2^(e-150) * 2^14
      a == IF e > 128 THEN 40000 ELSE IF sh > 30 THEN 0 ELSE m \div (2 ^ sh)
  IN IF b[1] >= 128 /\ ~IsNaN4(b) THEN -a ELSE a
Abs(x) == IF x < 0 THEN -x ELSE x
Axes(v) == <<Fx(Part(v, 1, 4)), Fx(Part(v, 5, 4)), Fx(Part(v, 9, 4))>>
Near3(a, b, s) == \A i \in 1..3 : Abs(a[i] - s * b[i]) <= 3
Sq3(a) == a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
Unit(a) == \A i \in 1..3 : Abs(a[i]) <= 16384

\* the axes on the wire stand for rotation v (16 bytes): same rotation, so negated if W is negative
RotOnWire(v, wireAxes) ==
  LET w == Fx(Part(v, 13, 4))
      a == Axes(wireAxes)
  IN \/ w >= -3 /\ Near3(a, Axes(v), 1)
     \/ w <= 3 /\ Near3(a, Axes(v), -1)
\* the rotation v (16 bytes) has these axes and completes them to length one
RotCompletes(v, axes) ==
  LET w == Fx(Part(v, 13, 4))
      a == Axes(axes)
  IN /\ Near3(Axes(v), a, 1)
     /\ (Unit(a) /\ Sq3(a) <= 268435456 - 300000) => (w >= 0 /\ Abs(Sq3(a) + w * w - 268435456) <= 150000)
     /\ (Unit(a) /\ Sq3(a) >= 268435456 + 300000) => Abs(w) <= 4
SameRot(v, u) ==
  \/ Near3(Axes(v), Axes(u), 1) /\ Abs(Fx(Part(v, 13, 4)) - Fx(Part(u, 13, 4))) <= 400
  \/ Near3(Axes(v), Axes(u), -1) /\ Abs(Fx(Part(v, 13, 4)) + Fx(Part(u, 13, 4))) <= 400

RECURSIVE TrimZ(_)
TrimZ(q) == IF q # <<>> /\ q[Len(q)] = 0 THEN TrimZ(SubSeq(q, 1, Len(q) - 1)) ELSE q

IsNaN8(b) == b[1] % 128 = 127 /\ b[2] >= 240 /\ (b[2] % 16 # 0 \/ \E i \in 3..8 : b[i] # 0)
SameFloats(v, u, w) ==
  Len(v) = Len(u) /\ \A k \in 0..(Len(v) \div w) - 1 :
     LET a == Part(v, k * w + 1, w)
         b == Part(u, k * w + 1, w)
     IN a = b \/ (IF w = 4 THEN IsNaN4(a) /\ IsNaN4(b) ELSE IsNaN8(a) /\ IsNaN8(b))

\* the value v given to the library or returned by it is the one standing for b
SameValue(f, v, b) ==
  CASE f.type = "Variable" -> TrimZ(v) = TrimZ(b)
    [] f.type \in Float4 -> SameFloats(v, b, 4)
    [] f.type \in {"F64", "LLVector3d"} -> SameFloats(v, b, 8)
    [] f.type = "LLQuaternion" -> Len(v) = 16 /\ IF Len(b) = 16 THEN SameRot(v, b) ELSE RotCompletes(v, b)
    [] OTHER -> v = b
SameInst(bl, x, y) == Len(x) = Len(bl.fields) /\ Len(y) = Len(bl.fields)
                      /\ \A i \in 1..Len(bl.fields) : SameValue(bl.fields[i], x[i], y[i])
SameBlock(bl, x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SameInst(bl, x[i], y[i])
SameInsts(t, x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(t.blocks) : SameBlock(t.blocks[i], x[i], y[i])

\* the bytes of a message number
MsgNum(t) ==
  CASE t.freq = "High" -> <<t.num>>
    [] t.freq = "Medium" -> <<255, t.num>>
    [] t.freq = "Low" -> <<255, 255, t.num \div 256, t.num % 256>>
    [] OTHER -> <<255, 255, 255, t.num>>

\* a little-endian length; -1 where it exceeds what TLC can count with
LenOf(b) ==
  IF Len(b) = 1 THEN b[1]
  ELSE IF Len(b) = 2 THEN b[1] + 256 * b[2]
  ELSE IF Len(b) = 4 THEN (IF b[3] # 0 \/ b[4] # 0 THEN 1000000 ELSE b[1] + 256 * b[2])
  ELSE -1

-----------------------------------------------------------------------------
(* Reading a body.  Positions are 1-based; 0 stands for failure.           *)

Fail == [ok |-> FALSE, p |-> 0, v |-> <<>>]
Good(p, v) == [ok |-> TRUE, p |-> p, v |-> v]

RdField(f, b, p) ==
  LET lp == IF f.type = "Variable" THEN f.size ELSE 0
  IN IF p + lp - 1 > Len(b) THEN Fail
     ELSE LET n == IF f.type = "Variable" THEN LenOf(Part(b, p, lp)) ELSE f.size
              q == p + lp
          IN IF n < 0 \/ q + n - 1 > Len(b) THEN Fail
             ELSE IF f.type = "LLQuaternion" THEN Good(q + n, RevEach(Part(b, q, n), 4))
             ELSE Good(q + n, OffWire(f, Part(b, q, n)))

RECURSIVE RdFields(_, _, _, _)
RdFields(fs, b, p, acc) ==
  IF fs = <<>> THEN Good(p, acc)
  ELSE LET r == RdField(Head(fs), b, p)
       IN IF ~r.ok THEN Fail ELSE RdFields(Tail(fs), b, r.p, Append(acc, r.v))
RECURSIVE RdInsts(_, _, _, _, _)
RdInsts(bl, n, b, p, acc) ==
  IF n = 0 THEN Good(p, acc)
  ELSE LET r == RdFields(bl.fields, b, p, <<>>)
       IN IF ~r.ok THEN Fail ELSE RdInsts(bl, n - 1, b, r.p, Append(acc, r.v))
RdBlock(bl, b, p) ==
  CASE bl.kind = "Single" -> RdInsts(bl, 1, b, p, <<>>)
    [] bl.kind = "Multiple" -> RdInsts(bl, bl.n, b, p, <<>>)
    [] OTHER -> IF p > Len(b) THEN Fail ELSE RdInsts(bl, b[p], b, p + 1, <<>>)
RECURSIVE RdBlocks(_, _, _, _)
RdBlocks(bls, b, p, acc) ==
  IF bls = <<>> THEN Good(p, acc)
  ELSE LET r == RdBlock(Head(bls), b, p)
       IN IF ~r.ok THEN Fail ELSE RdBlocks(Tail(bls), b, r.p, Append(acc, r.v))
\* the body b (after the message number) of a message with template t: [ok, p, v]; b[p..] is left over
RdBody(t, b) == RdBlocks(t.blocks, b, 1, <<>>)

-----------------------------------------------------------------------------
(* Run-length coded zeros                                                   *)
RECURSIVE Expand(_, _)
Expand(b, acc) ==
  IF b = <<>> THEN acc
  ELSE IF Head(b) # 0 THEN
         LET k == IF \E i \in 1..Len(b) : b[i] = 0 THEN (CHOOSE i \in 1..Len(b) : b[i] = 0 /\ \A j \in 1..i-1 : b[j] # 0) - 1 ELSE Len(b)
         IN Expand(From(b, k + 1), acc \o SubSeq(b, 1, k))
  ELSE IF Len(b) = 1 THEN Append(acc, 0)
  ELSE Expand(From(b, 3), acc \o Zeros(b[2]))
\* every zero byte begins a pair with a count above zero
RECURSIVE Coded(_)
Coded(b) == IF \A i \in 1..Len(b) : b[i] # 0 THEN TRUE
            ELSE LET i == CHOOSE i \in 1..Len(b) : b[i] = 0 /\ \A j \in 1..i-1 : b[j] # 0
                 IN i < Len(b) /\ b[i+1] # 0 /\ Coded(From(b, i + 2))

-----------------------------------------------------------------------------
(* A whole datagram: [got, why, free, t, flags, seq, acks, insts, rest]     *)
(* free: the layout does not settle what this datagram is.                  *)
None(why) == [got |-> FALSE, why |-> why, free |-> FALSE]
Free == [got |-> FALSE, why |-> "unsettled", free |-> TRUE]

\* the message number at the head of b: <<frequency, number, bytes it takes>>
NumAt(b) ==
  IF b[1] # 255 THEN <<"High", b[1], 1>>
  ELSE IF Len(b) >= 2 /\ b[2] # 255 THEN <<"Medium", b[2], 2>>
  ELSE IF Len(b) >= 4 /\ b[3] # 255 THEN <<"Low", b[3] * 256 + b[4], 4>>
  ELSE IF Len(b) >= 4 THEN <<"Fixed", b[4], 4>>
  ELSE <<"none", 0, 0>>

Acks4(tr) == [i \in 1..(Len(tr) \div 4) |-> Part(tr, 4 * i - 3, 4)]

Decode(ts, d) ==
  IF Len(d) < 7 THEN None("short")
  ELSE LET n == IF Bit(d[1], ACKF) THEN d[Len(d)] ELSE 0
           tl == IF Bit(d[1], ACKF) THEN 4 * n + 1 ELSE 0
       IN IF Len(d) - tl < 7 THEN None("acks")
          ELSE LET m == SubSeq(d, 1, Len(d) - tl)
                   acks == IF tl = 0 THEN <<>> ELSE Acks4(Part(d, Len(d) - tl + 1, 4 * n))
                   off == m[6]
               IN IF Len(m) < 7 + off THEN None("offset")
                  ELSE LET raw == From(m, 7 + off)
                           zc == Bit(d[1], ZERF)
                           b == IF zc THEN Expand(raw, <<>>) ELSE raw
                           k == NumAt(b)
                           c == {i \in 1..Len(ts) : ts[i].freq = k[1] /\ ts[i].num = k[2]}
                       IN IF zc /\ ~Coded(raw) THEN Free
                          ELSE IF c = {} THEN None("number")
                          ELSE LET t == CHOOSE i \in c : \A j \in c : j <= i
                                   r == RdBody(ts[t], From(b, k[3] + 1))
                               IN IF ~r.ok THEN None("body")
                                  ELSE [got |-> TRUE, why |-> "", free |-> FALSE, t |-> t, flags |-> d[1], seq |-> Part(d, 2, 4),
                                        acks |-> acks, insts |-> r.v, rest |-> Len(b) - k[3] - r.p + 1]

-----------------------------------------------------------------------------
(* The clauses.  Events:                                                    *)
(*  enc: flags, seq, acks, t, insts, lack ("" or what was left out), out,   *)
(*       made (bytes came out)                                              *)
(*  dec: bytes, got, and of what was got: name, gflags, gseq, gacks, ginsts,*)
(*       clean (no block or field besides those of the template)            *)
(*  rt:  both, dec being of the bytes enc made                              *)
CodecInit(cfg) == [ts |-> cfg.templates, barred |-> Rng(cfg.barred)]
CodecStep(s, e) == s

\* what the message has: number of instances right for a block that does not repeat freely
Countable(t, insts) ==
  \A i \in 1..Len(t.blocks) : LET n == Len(insts[i]) IN
     CASE t.blocks[i].kind = "Single" -> n = 1
       [] t.blocks[i].kind = "Multiple" -> n = t.blocks[i].n
       [] OTHER -> n <= 255

\* a variable field holds at most this many bytes (lengths of four bytes: no bound here)
Room(f) == IF f.size = 1 THEN 255 ELSE IF f.size = 2 THEN 65535 ELSE 100000000
\* values that cannot be told with the declared length, whatever zeros stand behind them;
Over(t, insts) == \E i \in 1..Len(t.blocks) : \E k \in 1..Len(t.blocks[i].fields) :
  LET f == t.blocks[i].fields[k] IN
  f.type = "Variable" /\ \E j \in 1..Len(insts[i]) : Len(insts[i][j][k]) > Room(f) /\ Len(TrimZ(insts[i][j][k])) > Room(f)
\* and values that leave no room for a terminator
Tight(t, insts) == \E i \in 1..Len(t.blocks) : \E k \in 1..Len(t.blocks[i].fields) :
  LET f == t.blocks[i].fields[k] IN
  f.type = "Variable" /\ \E j \in 1..Len(insts[i]) : Len(insts[i][j][k]) >= Room(f)
NoBlocks(t, insts) == \A i \in 1..Len(t.blocks) : Len(insts[i]) = 0

\* the appended acknowledgements, and what stood behind the body before them
Trailer(e) == IF Bit(e.flags, ACKF) THEN Concat(e.acks) \o <<Len(e.acks)>> ELSE <<>>

\* Rotations cannot be compared as bytes: read the body back and compare it value by value.
\* All other bytes are determined (up to zeros behind variable fields).
MatchField(f, v, w) ==
  CASE f.type = "LLQuaternion" -> Len(w) = 12 /\ RotOnWire(v, w)
    [] f.type = "Variable" -> TrimZ(v) = TrimZ(w) /\ Len(w) - Len(v) \in {-1, 0, 1}
    [] OTHER -> v = w
MatchInsts(t, v, w) ==
  \A i \in 1..Len(t.blocks) :
     /\ Len(v[i]) = Len(w[i])
     /\ \A j \in 1..Len(v[i]) : \A k \in 1..Len(t.blocks[i].fields) : MatchField(t.blocks[i].fields[k], v[i][j][k], w[i][j][k])

EncBad(s, e) ==
  LET t == s.ts[e.t]
      num == MsgNum(t)
      h == 6 + Len(num)
  IN IF e.lack # "" \/ ~Countable(t, e.insts) \/ Over(t, e.insts) THEN When(e.made, "C11.refuse") \cup When(~e.made /\ e.err = "", "C11.silent")
     ELSE IF t.name \in s.barred THEN When(e.made, "C15.sent")
     ELSE IF ~e.made /\ Tight(t, e.insts) THEN {}
     ELSE IF ~e.made THEN When(~NoBlocks(t, e.insts) \/ t.blocks = <<>>, "C11.refused")
     ELSE IF Len(e.out) < h THEN {"C11.short"}
     ELSE
       LET body == From(e.out, h + 1)
           r == RdBody(t, body)
           rest == From(body, r.p)
           tr == Trailer(e)
           pad == IF t.name = "RegionHandshakeReply" THEN {<<>>, Zeros(4)} ELSE {<<>>}
       IN When(e.out[1] # e.flags, "C11.flags")
          \cup When(Part(e.out, 2, 4) # e.seq, "C11.seq")
          \cup When(e.out[6] # 0, "C11.offset")
          \cup When(Part(e.out, 7, Len(num)) # num, "C11.number")
          \cup When(~r.ok, "C11.layout")
          \cup When(r.ok /\ ~MatchInsts(t, e.insts, r.v), "C11.fields")
          \cup When(r.ok /\ rest \notin {p \o tr : p \in pad}, "C11.trailer")

DecBad(s, e) ==
  LET x == Decode(s.ts, e.bytes) IN
  IF x.free THEN {}
  ELSE IF ~x.got THEN When(e.got, "C12.madeup")
  ELSE IF s.ts[x.t].name \in s.barred THEN When(e.got, "C15.deliver")
  ELSE IF ~e.got THEN When(x.rest = 0 /\ ~(NoBlocks(s.ts[x.t], x.insts) /\ s.ts[x.t].blocks # <<>>), "C12.rejected")
  ELSE When(e.name # s.ts[x.t].name, "C12.name")
       \cup When(e.gflags # x.flags, "C12.flags")
       \cup When(e.gseq # x.seq, "C12.seq")
       \cup When(e.gacks # x.acks, "C12.acks")
       \cup When(~e.clean, "C12.extra")
       \cup When(e.name = s.ts[x.t].name /\ ~SameInsts(s.ts[x.t], e.ginsts, x.insts), "C12.fields")

RtBad(s, e) ==
  LET t == s.ts[e.t] IN
  IF e.lack # "" \/ ~Countable(t, e.insts) \/ t.name \in s.barred THEN {}
  ELSE IF NoBlocks(t, e.insts) /\ t.blocks # <<>> THEN {}
  ELSE IF ~e.made /\ Tight(t, e.insts) THEN {}
  ELSE IF ~e.made THEN {"C10.refused"}
  ELSE IF ~e.got THEN {"C10.lost"}
  ELSE When(e.name # t.name, "C10.name")
       \cup When(e.gseq # e.seq, "C10.seq")
       \cup When(e.gflags # e.flags, "C10.flags")
       \cup When(Bit(e.flags, ACKF) /\ e.gacks # e.acks, "C10.acks")
       \cup When(~e.clean, "C10.extra")
       \cup When(e.name = t.name /\ ~SameInsts(t, e.ginsts, e.insts), "C10.fields")

CodecBad(s, e) ==
  CASE e.op = "enc" -> EncBad(s, e)
    [] e.op = "dec" -> DecBad(s, e)
    [] e.op = "rt" -> EncBad(s, e) \cup RtBad(s, e) \cup (IF e.made THEN DecBad(s, [e EXCEPT !.bytes = e.out]) ELSE {})
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Part 2: the design                                                       *)
LeLen(n, w) == IF w = 1 THEN <<n % 256>> ELSE IF w = 2 THEN <<n % 256, n \div 256>> ELSE <<n % 256, n \div 256, 0, 0>>
Neg4(b) == <<(b[1] + 128) % 256, b[2], b[3], b[4]>>
DEncField(f, v) ==
  CASE f.type = "Variable" -> LET w == Append(v, 0) IN LeLen(Len(w), f.size) \o w     \* a terminator is added
    [] f.type = "LLQuaternion" ->
         LET neg == v[13] >= 128
             ax(i) == LET a == Part(v, 4 * i - 3, 4) IN Rev(IF neg THEN Neg4(a) ELSE a)
         IN ax(1) \o ax(2) \o ax(3)
    [] OTHER -> OnWire(f, v)
DEncInst(bl, inst) == Concat([k \in 1..Len(bl.fields) |-> DEncField(bl.fields[k], inst[k])])
DEncBlock(bl, insts) == (IF bl.kind = "Variable" THEN <<Len(insts)>> ELSE <<>>)
                        \o Concat([j \in 1..Len(insts) |-> DEncInst(bl, insts[j])])
DBody(t, insts) == MsgNum(t) \o Concat([i \in 1..Len(t.blocks) |-> DEncBlock(t.blocks[i], insts[i])])
                   \o (IF t.name = "RegionHandshakeReply" THEN Zeros(4) ELSE <<>>)
DRefuses(t, insts) == \E i \in 1..Len(t.blocks) :
   \/ t.blocks[i].kind = "Single" /\ Len(insts[i]) # 1
   \/ t.blocks[i].kind = "Multiple" /\ Len(insts[i]) # t.blocks[i].n
   \/ t.blocks[i].kind = "Variable" /\ Len(insts[i]) > 255
   \/ Tight(t, insts)                        \* with the terminator
DEncode(t, flags, seq, acks, insts) ==
  <<flags>> \o seq \o <<0>> \o DBody(t, insts) \o (IF Bit(flags, ACKF) THEN Concat(acks) \o <<Len(acks)>> ELSE <<>>)

\* the decoder: zero bytes behind a variable field go, except in fields named Data
DStrip(f, v) == IF f.type = "Variable" /\ f.name # "Data" THEN TrimZ(v)
                ELSE IF f.type = "LLQuaternion" THEN v \o <<0, 0, 0, 0>>    \* W: see RotCompletes
                ELSE v
DDecode(ts, d) ==
  LET x == Decode(ts, d) IN
  IF ~x.got THEN [got |-> FALSE]
  ELSE IF NoBlocks(ts[x.t], x.insts) /\ ts[x.t].blocks # <<>> THEN [got |-> FALSE]
  ELSE [got |-> TRUE, name |-> ts[x.t].name, flags |-> x.flags, seq |-> x.seq, acks |-> x.acks,
        insts |-> [i \in 1..Len(x.insts) |-> [j \in 1..Len(x.insts[i]) |-> [k \in 1..Len(x.insts[i][j]) |->
                     DStrip(ts[x.t].blocks[i].fields[k], x.insts[i][j][k])]]]]

\* the usual zero coder of a sender: runs of at most 255
RECURSIVE ZeroCode(_)
ZeroCode(b) ==
  IF b = <<>> THEN <<>>
  ELSE IF Head(b) # 0 THEN <<Head(b)>> \o ZeroCode(Tail(b))
  ELSE LET n == IF \E i \in 1..Len(b) : b[i] # 0 THEN (CHOOSE i \in 1..Len(b) : b[i] # 0 /\ \A j \in 1..i-1 : b[j] = 0) - 1 ELSE Len(b)
           k == IF n > 255 THEN 255 ELSE n
       IN <<0, k>> \o ZeroCode(From(b, k + 1))
=============================================================================
