------------------------------- MODULE Pack -------------------------------
(* The wire types of numbers: what bytes a number is packed to, and what   *)
(* number the bytes at a place in a buffer unpack to.  A number is a sign, *)
(* its binary digits and the exponent of the last.  Part 1: the clauses of *)
(* C31.  Part 2: the design, on numbers small enough for arithmetic.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
When(b, c) == IF b THEN {c} ELSE {}
Rng(q) == {q[i] : i \in 1..Len(q)}
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Rep(n, x) == [i \in 1..n |-> x]
Slice(q, off, n) == IF off >= Len(q) THEN <<>> ELSE SubSeq(q, off + 1, IF off + n > Len(q) THEN Len(q) ELSE off + n)

\* width, how many, kind, byte order when none is asked for
Types == [U8 |-> <<1, 1, "u", "little">>, S8 |-> <<1, 1, "s", "little">>, BOOL |-> <<1, 1, "u", "little">>,
          U16 |-> <<2, 1, "u", "little">>, S16 |-> <<2, 1, "s", "little">>, U32 |-> <<4, 1, "u", "little">>, S32 |-> <<4, 1, "s", "little">>,
          U64 |-> <<8, 1, "u", "little">>, S64 |-> <<8, 1, "s", "little">>, F32 |-> <<4, 1, "f", "little">>, F64 |-> <<8, 1, "f", "little">>,
          IP_PORT |-> <<2, 1, "u", "big">>, LLVector3 |-> <<4, 3, "f", "little">>, LLVector3d |-> <<8, 3, "f", "little">>, LLVector4 |-> <<4, 4, "f", "little">>]
SizeOf(t) == IF t \in DOMAIN Types THEN Types[t][1] * Types[t][2]
             ELSE CASE t = "LLQuaternion" -> 12 [] t = "LLUUID" -> 16 [] t = "IP_ADDR" -> 4 [] OTHER -> -1
Order(t, o) == IF o = "" THEN Types[t][4] ELSE IF o = "little" THEN "little" ELSE "big"

Bit(x, k) == (x \div (2 ^ k)) % 2
Bits(b) == [i \in 1..(8 * Len(b)) |-> Bit(b[((i - 1) \div 8) + 1], 7 - ((i - 1) % 8))]
RECURSIVE Lead(_)
Lead(q) == IF q = <<>> \/ Head(q) = 1 THEN q ELSE Lead(Tail(q))
RECURSIVE Trail(_)
Trail(q) == IF q = <<>> \/ q[Len(q)] = 1 THEN q ELSE Trail(SubSeq(q, 1, Len(q) - 1))
RECURSIVE Val2(_)
Val2(q) == IF q = <<>> THEN 0 ELSE 2 * Val2(SubSeq(q, 1, Len(q) - 1)) + q[Len(q)]
\* complement of two: up to the last one the digits stay, before it they turn
NegBits(q) == LET l == Len(Trail(q)) IN [i \in 1..Len(q) |-> IF i >= l THEN q[i] ELSE 1 - q[i]]

Inf == 9999
NaN == 9998
IntOf(q, signed) == IF signed /\ q[1] = 1 THEN [neg |-> TRUE, bits |-> Lead(NegBits(q)), e |-> 0] ELSE [neg |-> FALSE, bits |-> Lead(q), e |-> 0]
FloatOf(q) ==
  LET eb == IF Len(q) = 32 THEN 8 ELSE 11
      fb == Len(q) - 1 - eb
      bias == 2 ^ (eb - 1) - 1
      E == Val2(SubSeq(q, 2, 1 + eb))
      frac == SubSeq(q, 2 + eb, Len(q))
      all == IF E = 0 THEN Lead(frac) ELSE <<1>> \o frac
      cut == Trail(all)
      low == (IF E = 0 THEN 1 ELSE E) - bias - fb
  IN IF E = 2 ^ eb - 1 THEN (IF Trail(frac) = <<>> THEN [neg |-> q[1] = 1, bits |-> <<>>, e |-> Inf] ELSE [neg |-> FALSE, bits |-> <<>>, e |-> NaN])
     ELSE [neg |-> q[1] = 1, bits |-> cut, e |-> IF cut = <<>> THEN 0 ELSE low + Len(all) - Len(cut)]
Read1(k, order, b) == LET q == Bits(IF order = "big" THEN b ELSE Rev(b)) IN IF k = "f" THEN FloatOf(q) ELSE IntOf(q, k = "s")
\* the numbers that the bytes b of type t are
Read(t, o, b) == LET d == Types[t] IN [i \in 1..d[2] |-> Read1(d[3], Order(t, o), SubSeq(b, (i - 1) * d[1] + 1, i * d[1]))]
Fits(t, v) == LET d == Types[t]
                  n == 8 * d[1]
              IN CASE d[3] = "u" -> ~v.neg /\ Len(v.bits) <= n
                   [] d[3] = "s" -> Len(v.bits) < n \/ (v.neg /\ v.bits = <<1>> \o Rep(n - 1, 0))
                   [] OTHER -> TRUE

(* a buffer to which what is packed is appended *)
PackInit(cfg) == [buf |-> <<>>]
HasNaN(v) == \E i \in 1..Len(v) : v[i].e = NaN
PackBad(s, e) ==
  \* a number the type has no room for may be refused or cut, but not spill over
  CASE e.op = "size" -> When(e.n # SizeOf(e.t), "C31.size")
    [] e.op = "put" ->
         IF \E i \in 1..Len(e.v) : ~Fits(e.t, e.v[i]) THEN When(e.err = "" /\ Len(e.out) # SizeOf(e.t), "C31.length")
         ELSE When(e.err # "", "C31.error")
              \cup When(e.err = "" /\ Len(e.out) # SizeOf(e.t), "C31.length")
              \cup When(e.err = "" /\ Len(e.out) = SizeOf(e.t) /\ Read(e.t, e.order, e.out) # e.v, "C31.bytes")
    [] e.op = "get" ->
         LET b == Slice(s.buf, e.off, SizeOf(e.t)) IN
         IF Len(b) < SizeOf(e.t) THEN When(Types[e.t][2] = 1 /\ e.err # "DataUnpackingError", "C31.short")
         ELSE LET v == Read(e.t, e.order, b) IN
              When(e.err # "", "C31.error") \cup When(e.err = "" /\ ~HasNaN(v) /\ e.v # v, "C31.value")
    \* bytes that are no number, taken as they stand
    [] e.op = "cut" -> LET b == Slice(s.buf, e.off, e.n) IN When(Len(b) = e.n /\ (e.err # "" \/ e.out # b), "C31.cut")
    [] OTHER -> {}
PackStep(s, e) ==
  CASE e.op = "put" -> [buf |-> s.buf \o e.out]
    [] e.op = "raw" -> [buf |-> s.buf \o e.out]
    [] OTHER -> s

-----------------------------------------------------------------------------
(* Part 2: integers by division, short fractions m * 2^e by their fields   *)
Abs(m) == IF m < 0 THEN -m ELSE m
RECURSIVE Log2(_)
Log2(a) == IF a <= 1 THEN 0 ELSE 1 + Log2(a \div 2)
RECURSIVE Digits2(_)
Digits2(a) == IF a = 0 THEN <<>> ELSE Append(Digits2(a \div 2), a % 2)
IntVal(n) == [neg |-> n < 0, bits |-> Digits2(Abs(n)), e |-> 0]
FloatVal(n) == LET d == Digits2(Abs(n)) IN [neg |-> n < 0, bits |-> Trail(d), e |-> IF n = 0 THEN 0 ELSE Len(d) - Len(Trail(d))]
Of(t, n) == IF Types[t][3] = "f" THEN FloatVal(n) ELSE IntVal(n)
LE(n, w) == IF w = 1 THEN <<n % 256>> ELSE IF w = 2 THEN <<n % 256, (n \div 256) % 256>> ELSE <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
FE(n) == IF n = 0 THEN <<0, 0, 0, 0>>
         ELSE LET a == Abs(n)
                  k == Log2(a)
                  f == (a - 2 ^ k) * 2 ^ (23 - k)
                  E == k + 127
              IN <<f % 256, (f \div 256) % 256, ((f \div 65536) % 128) + 128 * (E % 2), (E \div 2) + (IF n < 0 THEN 128 ELSE 0)>>
DFits(t, n) == LET w == 8 * Types[t][1] IN
  CASE Types[t][3] = "u" -> n >= 0 /\ (w >= 31 \/ n < 2 ^ w) [] Types[t][3] = "s" -> w >= 31 \/ (n >= -(2 ^ (w - 1)) /\ n < 2 ^ (w - 1)) [] OTHER -> TRUE
DBytes(t, o, n) == LET b == IF Types[t][3] = "f" THEN FE(n) ELSE LE(n, Types[t][1]) IN IF Order(t, o) = "big" THEN Rev(b) ELSE b
\* what stands in one to four bytes, low ones first
RECURSIVE Up(_)
Up(b) == IF b = <<>> THEN 0 ELSE b[1] + 256 * Up(Tail(b))
DRead(t, o, b0) ==
  LET b == IF Order(t, o) = "big" THEN Rev(b0) ELSE b0
      w == 8 * Types[t][1]
  IN CASE Types[t][3] = "u" -> IF w = 32 THEN IntOf(Bits(Rev(b)), FALSE) ELSE IntVal(Up(b))
       [] Types[t][3] = "s" -> IF w = 32 THEN IntOf(Bits(Rev(b)), TRUE) ELSE IntVal(IF Up(b) >= 2 ^ (w - 1) THEN Up(b) - 2 ^ w ELSE Up(b))
       [] OTHER -> Read1("f", "little", b)
DDo(buf, op) ==
  CASE op.op = "put" -> LET ok == DFits(op.t, op.n)
                            b == IF ok THEN DBytes(op.t, op.order, op.n) ELSE <<>>
                        IN <<buf \o b, [op |-> "put", t |-> op.t, order |-> op.order, v |-> <<Of(op.t, op.n)>>, err |-> IF ok THEN "" ELSE "error", out |-> b]>>
    [] op.op = "get" -> LET b == Slice(buf, op.off, SizeOf(op.t)) IN
                        <<buf, [op |-> "get", t |-> op.t, order |-> op.order, off |-> op.off,
                                err |-> IF Len(b) < SizeOf(op.t) THEN "DataUnpackingError" ELSE "",
                                v |-> IF Len(b) < SizeOf(op.t) THEN <<>> ELSE <<DRead(op.t, op.order, b)>>]>>
=============================================================================
