----------------------------- MODULE MC_Codec -----------------------------
(* Every message of a family of small templates, encoded by the design,    *)
(* and every way of tampering with the datagram once.                       *)
EXTENDS Codec, Json, IOUtils
CONSTANT Rich          \* 0: small family, 1: larger
Mode == IOEnv.VF_OPS   \* "rt" or "wire"
Slices == atoi(IOEnv.VF_SLICES)  \* only every Slices-th template, from Slice on
Slice == atoi(IOEnv.VF_SLICE)
Emit == IOEnv.VF_EMIT = "1"

VARIABLES ph, ti, insts, lack, flags, acks, dg, bad

F(n, t, s) == [name |-> n, type |-> t, size |-> s]
U8 == F("A", "U8", 1)
S16 == F("B", "S16", 2)
V1 == F("C", "Variable", 1)
V2 == F("Data", "Variable", 2)
V4 == F("K", "Variable", 4)
X3 == F("D", "Fixed", 3)
IPP == F("E", "IPPORT", 2)
IPA == F("G", "IPADDR", 4)
BO == F("H", "BOOL", 1)
F32 == F("I", "F32", 4)
Q == F("J", "LLQuaternion", 12)

FieldLists == IF Rich = 0 THEN {<<U8>>, <<V1, S16>>, <<X3, V2>>, <<IPP, IPA>>, <<F32, V4>>, <<Q>>}
              ELSE {<<U8>>, <<S16>>, <<V1>>, <<V1, S16>>, <<S16, V1, U8>>, <<X3, V2>>, <<V2, V1>>, <<IPP, IPA>>, <<F32, V4>>, <<BO, V4, X3>>, <<Q>>, <<Q, U8>>}
Kinds == {<<"Single", 0>>, <<"Multiple", 2>>, <<"Variable", 0>>}
Blk(n, k, fs) == [name |-> n, kind |-> k[1], n |-> k[2], fields |-> fs]
Freqs == <<<<"High", 1>>, <<"Medium", 0>>, <<"Low", 65279>>, <<"Fixed", 250>>, <<"Low", 256>>, <<"Medium", 254>>, <<"High", 254>>, <<"Low", 255>>>>

OneBlock == {<<Blk("B1", k, fs)>> : k \in Kinds, fs \in FieldLists}
TwoBlocks == {<<Blk("B1", k, fs), Blk("B2", l, gs)>> : k \in Kinds, l \in Kinds,
              fs \in (IF Rich = 0 THEN {<<U8>>, <<V1, S16>>} ELSE FieldLists), gs \in {<<U8>>, <<X3, V2>>}}
Bodies == {<<>>} \cup OneBlock \cup TwoBlocks
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
BodySeq == SeqOf(Bodies)
Ts == [i \in 1..Len(BodySeq) |-> [name |-> "M" \o ToString(i), freq |-> Freqs[(i % 8) + 1][1],
                                  num |-> IF Freqs[(i % 8) + 1][1] = "Low" THEN (Freqs[(i % 8) + 1][2] + i * 256 - 256) % 65280 ELSE (Freqs[(i % 8) + 1][2] + i) % 255,
                                  blocks |-> BodySeq[i]]]

Vals(f) ==
  CASE f.type = "U8" -> {<<0>>, <<255>>}
    [] f.type = "S16" -> {<<128, 1>>, <<0, 0>>}
    [] f.type = "Variable" -> {<<>>, <<65, 0, 66>>, <<0>>}
    [] f.type = "Fixed" -> {<<1, 0, 0>>, <<0, 255, 2>>}
    [] f.type = "IPPORT" -> {<<1, 2>>}
    [] f.type = "IPADDR" -> {<<10, 0, 0, 1>>, <<0, 0, 0, 0>>}
    [] f.type = "BOOL" -> {<<0>>, <<1>>}
    [] f.type = "F32" -> {<<63, 128, 0, 0>>, <<192, 73, 15, 219>>}
    [] OTHER -> {<<63, 0, 0, 0, 191, 0, 0, 0, 63, 0, 0, 0, 63, 0, 0, 0>>, <<63, 0, 0, 0, 63, 0, 0, 0, 63, 0, 0, 0, 191, 0, 0, 0>>}

RECURSIVE InstSet(_)
InstSet(fs) == IF fs = <<>> THEN {<<>>} ELSE {<<v>> \o r : v \in Vals(Head(fs)), r \in InstSet(Tail(fs))}
\* instances: all alike or the first differing, to keep the number in bounds
BlockVals(b) ==
  LET one == InstSet(b.fields)
      alike(n) == {[j \in 1..n |-> IF j % 2 = 1 THEN x ELSE y] : x \in one, y \in {CHOOSE z \in one : TRUE}}
  IN CASE b.kind = "Single" -> alike(1) [] b.kind = "Multiple" -> alike(2) [] OTHER -> {<<>>} \cup alike(1) \cup alike(3)
RECURSIVE BodyVals(_)
BodyVals(bs) == IF bs = <<>> THEN {<<>>} ELSE {<<v>> \o r : v \in BlockVals(Head(bs)), r \in BodyVals(Tail(bs))}

SEQ == <<1, 0, 255, 2>>
ACKS == {<<>>, <<<<0, 0, 0, 9>>, <<255, 255, 255, 255>>>>}

Op == IF dg = <<>> THEN [op |-> "rt", t |-> ti, flags |-> flags, seq |-> SEQ, acks |-> acks, insts |-> insts, lack |-> lack]
      ELSE [op |-> "dec", bytes |-> dg]
Show(o) == Emit => PrintT("SCN " \o ToJson(o))

Init == /\ ph = 0 /\ ti = 0 /\ insts = <<>> /\ lack = "" /\ flags = 0 /\ acks = <<>> /\ dg = <<>> /\ bad = {}
        /\ (Emit => PrintT("SCN " \o ToJson([templates |-> Ts])))

Enc(t, fl, ak, ins, lk) ==
  LET ref == lk # "" \/ DRefuses(Ts[t], ins)
  IN [op |-> "rt", t |-> t, flags |-> fl, seq |-> SEQ, acks |-> ak, insts |-> ins, lack |-> lk,
      made |-> ~ref, err |-> IF ref THEN "refused" ELSE "", out |-> IF ref THEN <<>> ELSE DEncode(Ts[t], fl, SEQ, ak, ins), bytes |-> <<>>]
Got(d) == LET x == DDecode(Ts, d) IN
          IF ~x.got THEN [got |-> FALSE]
          ELSE [got |-> TRUE, name |-> x.name, gflags |-> x.flags, gseq |-> x.seq, gacks |-> x.acks, ginsts |-> x.insts, clean |-> TRUE]
HasQuat(t) == \E i \in 1..Len(Ts[t].blocks) : \E k \in 1..Len(Ts[t].blocks[i].fields) : Ts[t].blocks[i].fields[k].type = "LLQuaternion"

\* phase 1: a message
Choose ==
  /\ ph = 0
  /\ \E t \in {i \in 1..Len(Ts) : i % Slices = Slice} : \E ins \in BodyVals(Ts[t].blocks) : \E ak \in ACKS :
       LET fl == (IF ak = <<>> THEN 0 ELSE ACKF) + (IF t % 2 = 0 THEN RELF ELSE 0)
           e == Enc(t, fl, ak, ins, "")
       IN /\ ph' = 1 /\ ti' = t /\ insts' = ins /\ lack' = "" /\ flags' = fl /\ acks' = ak /\ dg' = <<>>
          /\ bad' = CodecBad([ts |-> Ts, barred |-> {}], e @@ (IF e.made THEN Got(e.out) ELSE [got |-> FALSE]))
          /\ (Mode = "rt" => Show([op |-> "rt", t |-> t, flags |-> fl, seq |-> SEQ, acks |-> ak, insts |-> ins, lack |-> ""]))

\* a message short of a block or a field, or with a wrong number of blocks
Lack ==
  /\ ph = 1 /\ Mode = "rt" /\ acks = <<>>
  /\ \E w \in {"block:" \o Ts[ti].blocks[i].name : i \in 1..Len(Ts[ti].blocks)}
           \cup {"field:" \o Ts[ti].blocks[i].name \o ":" \o Ts[ti].blocks[i].fields[1].name : i \in {j \in 1..Len(insts) : insts[j] # <<>>}} :
       /\ ph' = 2 /\ lack' = w /\ UNCHANGED <<ti, insts, flags, acks, dg>>
       /\ bad' = CodecBad([ts |-> Ts, barred |-> {}], Enc(ti, flags, acks, insts, w) @@ [got |-> FALSE])
       /\ Show([op |-> "rt", t |-> ti, flags |-> flags, seq |-> SEQ, acks |-> acks, insts |-> insts, lack |-> w])
Miscount ==
  /\ ph = 1 /\ Mode = "rt" /\ acks = <<>>
  /\ \E i \in 1..Len(insts) : \E n \in {0, 1, 2, 3} :
       LET ins == [insts EXCEPT ![i] = IF @ = <<>> THEN @ ELSE [j \in 1..n |-> @[1]]] IN
       /\ insts[i] # <<>> /\ n # Len(insts[i])
       /\ ph' = 2 /\ insts' = ins /\ UNCHANGED <<ti, flags, acks, dg, lack>>
       /\ LET e == Enc(ti, flags, acks, ins, "") IN
          bad' = CodecBad([ts |-> Ts, barred |-> {}], e @@ (IF e.made THEN Got(e.out) ELSE [got |-> FALSE]))
       /\ Show([op |-> "rt", t |-> ti, flags |-> flags, seq |-> SEQ, acks |-> acks, insts |-> ins, lack |-> ""])

\* phase 2: the datagram of a sender that zero-codes and adds header data, and tampered ones
Base == DEncode(Ts[ti], flags, SEQ, acks, insts)
TrLen == IF Bit(flags, ACKF) THEN 4 * Len(acks) + 1 ELSE 0
BodyOf(d) == SubSeq(d, 7, Len(d) - TrLen)
TrOf(d) == SubSeq(d, Len(d) - TrLen + 1, Len(d))
Variants ==
  LET d == Base
      h == SubSeq(d, 1, 5)
      z == <<(h[1] + ZERF)>> \o Tail(h)
  IN {d, h \o <<2, 7, 0>> \o BodyOf(d) \o TrOf(d), z \o <<0>> \o ZeroCode(BodyOf(d)) \o TrOf(d),
      z \o <<3, 0, 0, 9>> \o ZeroCode(BodyOf(d)) \o TrOf(d)}
Tampered(d) ==
  {SubSeq(d, 1, n) : n \in 0..Len(d)-1}
  \cup {[d EXCEPT ![i] = x] : i \in 1..Len(d), x \in {0, 1, 255}}
  \cup {d \o x : x \in {<<0>>, <<1>>, <<0, 1>>}}
  \cup {SubSeq(d, 1, i) \o SubSeq(d, i + 2, Len(d)) : i \in 6..Len(d)-1}
Put(d, p) == /\ dg' = d /\ ph' = p /\ UNCHANGED <<ti, insts, lack, flags, acks>>
             /\ bad' = CodecBad([ts |-> Ts, barred |-> {}], [op |-> "dec", bytes |-> d] @@ Got(d))
             /\ Show([op |-> "dec", bytes |-> d])
Wire == /\ ph = 1 /\ Mode = "wire" /\ ~DRefuses(Ts[ti], insts) /\ \E d \in Variants : Put(d, 3)
Tamper == /\ ph = 3 /\ Mode = "wire" /\ \E d \in Tampered(dg) : Put(d, 4)

Next == Choose \/ Lack \/ Miscount \/ Wire \/ Tamper
Spec == Init /\ [][Next]_<<ph, ti, insts, lack, flags, acks, dg, bad>>
View == <<ph, ti, insts, lack, flags, acks, dg, bad>>

\* W of a decoded rotation is not computed by the design: C10.fields and C12.fields are left to the code there
DesignOk == (ti = 0 \/ ~HasQuat(ti)) /\ dg = <<>> => bad = {}
DesignOkWire == bad \subseteq {"C12.fields", "C10.fields"}
\* facts about the layout
RoundTrip == ph = 1 /\ ~HasQuat(ti) => LET x == Decode(Ts, Base) IN
               x.got /\ x.t = ti /\ x.rest = 0 /\ SameInsts(Ts[ti], x.insts, insts) /\ x.acks = acks
ZeroInverse == ph = 1 => Expand(ZeroCode(BodyOf(Base)), <<>>) = BodyOf(Base) /\ Coded(ZeroCode(BodyOf(Base)))
VariantsAgree == ph = 3 => LET x == Decode(Ts, dg) IN x.got /\ x.t = ti /\ x.rest = 0
=============================================================================
