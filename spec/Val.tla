-------------------------------- MODULE Val --------------------------------
(***************************************************************************)
(* Identifiers, vectors, rotations, packed fractions, and the conversions  *)
(* of bytes.  Part 1: the clauses of C21, C27, C30.  Part 2: the design.   *)
(* A history makes objects 1, 2, ... and changes them; after every step    *)
(* all of them are looked at.  Events:                                     *)
(*  mk: k "U" | "V" | "Q", how: "zero"; "text" (chars); "bytes" (buf, off, *)
(*      len); "num" (nums); "copy" (of); "xor" (of, with)                  *)
(*  set: o, how "bytes" (buf, off, len) | "num" (nums, for "V" and "Q")    *)
(*  rnd: o                                                                 *)
(*  obs: o, b (bytes), text (of "U": chars of its text), comps (of "V",    *)
(*       "Q": [m, e] each, m odd or 0, meaning m * 2^e)                    *)
(*  eq: a, b, eq, ne, he (hashes equal); foreign: eq, ne; copied: same; dist: a, b, d  *)
(*  frac: w (1 or 2 bytes), buf, off, lo, hi (eighths), p (position of the *)
(*        result between lo and hi in thousandths of a step), zero         *)
(*  err in mk, set, rnd, frac                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

When(b, c) == IF b THEN {c} ELSE {}
Rng(q) == {q[i] : i \in 1..Len(q)}
Slice(q, off, n) == SubSeq(q, off + 1, IF off + n > Len(q) THEN Len(q) ELSE off + n)
Rep(n, x) == [i \in 1..n |-> x]

RECURSIVE Xor(_, _, _)
Xor(a, b, bits) == IF bits = 0 THEN 0 ELSE 2 * Xor(a \div 2, b \div 2, bits - 1) + (IF a % 2 = b % 2 THEN 0 ELSE 1)
XorSeq(p, q, bits) == [i \in 1..Len(p) |-> Xor(p[i], q[i], bits)]

\* text of identifiers
Digit(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
Char(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Urn == <<117, 114, 110, 58, 117, 117, 105, 100, 58>>
Body(t) == IF Len(t) >= 9 /\ SubSeq(t, 1, 9) = Urn THEN SubSeq(t, 10, Len(t)) ELSE t
Digits(t) == LET d == SelectSeq(Body(t), LAMBDA c : Digit(c) >= 0) IN [i \in 1..Len(d) |-> Digit(d[i])]
Bytes(ds) == [i \in 1..16 |-> 16 * ds[2 * i - 1] + ds[2 * i]]
Hex(b) == [i \in 1..(2 * Len(b)) |-> Char(IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16)]
Text(b) == LET h == Hex(b) IN SubSeq(h, 1, 8) \o <<45>> \o SubSeq(h, 9, 12) \o <<45>> \o SubSeq(h, 13, 16) \o <<45>> \o SubSeq(h, 17, 20) \o <<45>> \o SubSeq(h, 21, 32)

\* numbers m * 2^e and their four bytes
RECURSIVE Log2(_)
Log2(a) == IF a <= 1 THEN 0 ELSE 1 + Log2(a \div 2)
Abs(m) == IF m < 0 THEN -m ELSE m
RECURSIVE Odd(_, _)
Odd(m, e) == IF m = 0 THEN [m |-> 0, e |-> 0] ELSE IF m % 2 = 0 THEN Odd(m \div 2, e + 1) ELSE [m |-> m, e |-> e]
F32(x) == IF x.m = 0 THEN <<0, 0, 0, 0>>
          ELSE LET a == Abs(x.m)
                   k == Log2(a)
                   E == k + x.e + 127
                   f == (a - 2 ^ k) * 2 ^ (23 - k)
               IN <<f % 256, (f \div 256) % 256, ((f \div 65536) % 128) + 128 * (E % 2), (E \div 2) + (IF x.m < 0 THEN 128 ELSE 0)>>
F32s(xs) == FoldLeft(LAMBDA acc, x : acc \o F32(x), <<>>, xs)
Num(b) == LET E == 2 * (b[4] % 128) + (b[3] \div 128)
              f == (b[3] % 128) * 65536 + b[2] * 256 + b[1]
              s == IF b[4] >= 128 THEN -1 ELSE 1
          IN IF E = 0 THEN Odd(s * f, -149) ELSE Odd(s * (8388608 + f), E - 150)
Nums(b) == [i \in 1..(Len(b) \div 4) |-> Num(Slice(b, 4 * (i - 1), 4))]
\* numbers of eighths up to 125, and their squared distance in 64ths
Eighth(n) == IF n.m = 0 THEN 0 ELSE n.m * 2 ^ (n.e + 3)
Eighths(q) == \A i \in 1..Len(q) : q[i].m = 0 \/ (q[i].e \in -3..6 /\ Abs(q[i].m) <= 1000 /\ Abs(q[i].m) * 2 ^ (q[i].e + 3) <= 1000)
Square(p, q) == LET d(i) == Eighth(p[i]) - Eighth(q[i]) IN d(1) * d(1) + d(2) * d(2) + d(3) * d(3)
Is64ths(n, k) == IF n.m = 0 THEN k = 0 ELSE n.e \in -6..17 /\ n.m > 0 /\ n.m <= k /\ n.m * 2 ^ (n.e + 6) = k
Size(k) == CASE k = "U" -> 16 [] k = "V" -> 12 [] k = "Q" -> 16

\* a rotation of three numbers: the fourth is what its square lacks to one; n3, n4: squares of the three and of the four,
\* less one, in millionths
UnitRot(b, n3, n4) == IF n3 >= 3 THEN Abs(n4 - n3) <= 2 ELSE Nums(b)[4].m >= 0 /\ Abs(n4) <= 5

(* conversions *)
UHex(d) == IF d < 10 THEN 48 + d ELSE 55 + d
HexPairs(b) == [i \in 1..(IF b = <<>> THEN 0 ELSE 3 * Len(b) - 1) |-> LET x == b[(i + 2) \div 3] IN CASE i % 3 = 1 -> UHex(x \div 16) [] i % 3 = 2 -> UHex(x % 16) [] OTHER -> 32]
IsHex(t) == Len(t) % 2 = 0 /\ \A i \in 1..Len(t) : Digit(t[i]) >= 0
UnHex(t) == [i \in 1..(Len(t) \div 2) |-> 16 * Digit(t[2 * i - 1]) + Digit(t[2 * i])]
\* groups of four six-bit numbers are three bytes
Six(c) == CASE c \in 65..90 -> c - 65 [] c \in 97..122 -> c - 71 [] c \in 48..57 -> c + 4 [] c = 43 -> 62 [] c = 47 -> 63 [] OTHER -> -1
OfSix(d) == CASE d < 26 -> d + 65 [] d < 52 -> d + 71 [] d < 62 -> d - 4 [] d = 62 -> 43 [] d = 63 -> 47
Three(q) == [i \in 1..(3 * (Len(q) \div 4)) |-> LET g == 4 * ((i - 1) \div 3) IN
              CASE i % 3 = 1 -> 4 * q[g + 1] + (q[g + 2] \div 16) [] i % 3 = 2 -> 16 * (q[g + 2] % 16) + (q[g + 3] \div 4) [] OTHER -> 64 * (q[g + 3] % 4) + q[g + 4]]
Four(b) == [i \in 1..(4 * (Len(b) \div 3)) |-> LET g == 3 * ((i - 1) \div 4) IN
             CASE i % 4 = 1 -> b[g + 1] \div 4 [] i % 4 = 2 -> 16 * (b[g + 1] % 4) + (b[g + 2] \div 16)
               [] i % 4 = 3 -> 4 * (b[g + 2] % 16) + (b[g + 3] \div 64) [] OTHER -> b[g + 3] % 64]
\* text without its line ends
Line(t) == SelectSeq(t, LAMBDA c : c \notin {10, 13})
Is64(t, b) == LET u == Line(t)
                  n == (3 - (Len(b) % 3)) % 3
              IN /\ Len(u) = 4 * ((Len(b) + 2) \div 3)
                 /\ \A i \in 1..Len(u) : IF i > Len(u) - n THEN u[i] = 61 ELSE Six(u[i]) >= 0
                 /\ SubSeq(Three([i \in 1..Len(u) |-> IF u[i] = 61 THEN 0 ELSE Six(u[i])]), 1, Len(b)) = b
IsUu(t, b) == LET u == Line(t) IN
              /\ Len(u) = 1 + 4 * ((Len(b) + 2) \div 3)
              /\ \A i \in 1..Len(u) : u[i] \in 32..96
              /\ (u[1] - 32) % 64 = Len(b)
              /\ SubSeq(Three([i \in 1..(Len(u) - 1) |-> (u[i + 1] - 32) % 64]), 1, Len(b)) = b
\* the four low bytes of an integer given by its sign and the bytes of its magnitude
Low(m) == [i \in 1..4 |-> IF i <= Len(m) THEN m[i] ELSE 0]
RECURSIVE Neg(_, _)
Neg(q, carry) == IF q = <<>> THEN <<>> ELSE LET x == 255 - Head(q) + carry IN <<x % 256>> \o Neg(Tail(q), x \div 256)
Int4(neg, m) == IF neg THEN Neg(Low(m), 1) ELSE Low(m)

-----------------------------------------------------------------------------
\* objects: [k, b, st]: st "known", "random" (was null and has been replaced by something unknown), "rot3" (only the first 12 bytes are known)
ValInit(cfg) == [objs |-> <<>>]
Given(s, e) ==
  CASE e.how = "zero" -> [k |-> e.k, b |-> Rep(Size(e.k), 0), st |-> "known"]
    [] e.how = "text" -> [k |-> e.k, b |-> Bytes(Digits(e.chars)), st |-> "known"]
    [] e.how = "bytes" -> LET n == IF e.len = 3 THEN 12 ELSE Size(e.k)
                              b == Slice(e.buf, e.off, n)
                          IN [k |-> e.k, b |-> b, st |-> IF Len(b) < Size(e.k) THEN "rot3" ELSE "known"]
    [] e.how = "num" -> [k |-> e.k, b |-> F32s(e.nums), st |-> "known"]
    [] e.how = "copy" -> s.objs[e.of]
    [] e.how = "xor" -> [k |-> "U", b |-> XorSeq(s.objs[e.of].b, s.objs[e.with].b, 8), st |-> "known"]
ValStep(s, e) ==
  CASE e.op = "mk" -> [s EXCEPT !.objs = Append(@, Given(s, e))]
    [] e.op = "set" -> [s EXCEPT !.objs[e.o] = Given(s, [e EXCEPT !.k = s.objs[e.o].k])]
    [] e.op = "rnd" -> IF s.objs[e.o].b = Rep(16, 0) THEN [s EXCEPT !.objs[e.o].st = "random"] ELSE s
    [] e.op = "obs" -> IF s.objs[e.o].st \in {"random", "rot3"} THEN [s EXCEPT !.objs[e.o] = [k |-> @.k, b |-> e.b, st |-> "known"]] ELSE s
    [] OTHER -> s

MaxCode(w) == IF w = 2 THEN 65535 ELSE 255
Code(e) == IF e.w = 2 THEN e.buf[e.off + 1] + 256 * e.buf[e.off + 2] ELSE e.buf[e.off + 1]
\* the linear position of a code is u * (hi - lo) + lo * max, in eighths of a max-th
Near(e) == Abs(Code(e) * (e.hi - e.lo) + e.lo * MaxCode(e.w)) < e.hi - e.lo
Frac(e) ==
  LET u == Code(e) IN
  IF e.err # "" THEN {"C27.error"}
  ELSE When(Abs(e.p - 1000 * u) > 1000, "C27.value")
       \cup When(u \in {0, MaxCode(e.w)} /\ Abs(e.p - 1000 * u) > 1 /\ ~(Near(e) /\ e.zero), "C27.ends")
       \cup When(Near(e) /\ ~e.zero /\ ~(u \in {0, MaxCode(e.w)} /\ Abs(e.p - 1000 * u) <= 1), "C27.zero")
ValBad(s, e) ==
  CASE e.op \in {"mk", "set"} -> When(e.err # "", "C21.error")
    [] e.op = "rnd" -> When(e.err # "", "C21.error")
    [] e.op = "obs" -> LET o == s.objs[e.o] IN
         CASE o.st = "random" -> When(Len(e.b) # 16 \/ e.b = Rep(16, 0), "C21.random") \cup When(Len(e.b) = 16 /\ e.text # Text(e.b), "C21.text")
           [] o.st = "rot3" -> IF Len(e.b) # 16 \/ SubSeq(e.b, 1, 12) # o.b THEN {"C21.bytes"} ELSE When(~UnitRot(e.b, e.n3, e.n4), "C21.unit") \cup When(e.comps # Nums(e.b), "C21.comps")
           [] OTHER -> When(e.b # o.b, "C21.bytes") \cup When(o.k = "U" /\ e.text # Text(o.b), "C21.text")
                       \cup When(o.k # "U" /\ e.comps # Nums(o.b), "C21.comps")
    [] e.op = "eq" -> LET same == s.objs[e.a].b = s.objs[e.b].b IN
                      When(e.eq # same, "C21.eq") \cup When(e.ne = e.eq, "C21.ne") \cup When(same /\ ~e.he, "C21.hash")
    [] e.op = "dist" -> IF e.err # "" THEN {"C21.error"}
                        ELSE LET p == Nums(s.objs[e.a].b)
                                 q == Nums(s.objs[e.b].b)
                             IN When(Eighths(p) /\ Eighths(q) /\ ~Is64ths(e.d, Square(p, q)), "C21.dist")
    [] e.op = "copied" -> When(~e.same, "C21.copy")
    [] e.op = "foreign" -> When(e.eq, "C21.eq") \cup When(e.ne = e.eq, "C21.ne")
    [] e.op = "frac" -> Frac(e)
    [] e.op = "conv" ->
         CASE e.what = "unhex" -> When(IF IsHex(e.in) THEN e.err # "" \/ e.out # UnHex(e.in) ELSE e.err # "DataParsingError", "C30.unhex")
           [] e.err # "" -> {"C30.error"}
           [] e.what = "hex" -> When(e.out # HexPairs(e.in), "C30.hex")
           [] e.what = "base64" -> When(~Is64(e.out, e.in), "C30.base64")
           [] e.what = "uu" -> When(~IsUu(e.out, e.in), "C30.uu")
           [] e.what = "int" -> When(e.out # Int4(e.neg, e.in), "C30.int")
    [] OTHER -> {}

RECURSIVE Judge(_, _, _)
Judge(s, b, es) == IF es = <<>> THEN [s |-> s, b |-> b] ELSE Judge(ValStep(s, Head(es)), b \cup ValBad(s, Head(es)), Tail(es))

-----------------------------------------------------------------------------
(* Part 2: the design.  An identifier is held as one number, here its 32   *)
(* hexadecimal digits; a vector or rotation as its numbers.  objs: [k, v]. *)
DZero(k) == [k |-> k, v |-> CASE k = "U" -> Rep(32, 0) [] k = "V" -> Rep(3, [m |-> 0, e |-> 0]) [] k = "Q" -> Rep(4, [m |-> 0, e |-> 0])]
DBytes(o) == IF o.k = "U" THEN [i \in 1..16 |-> 16 * o.v[2 * i - 1] + o.v[2 * i]] ELSE F32s(o.v)
DRead(k, b) == IF k = "U" THEN [k |-> k, v |-> [i \in 1..32 |-> IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16]] ELSE [k |-> k, v |-> Nums(b)]
DMake(objs, e) ==
  CASE e.how = "zero" -> DZero(e.k)
    [] e.how = "text" -> [k |-> "U", v |-> Digits(e.chars)]
    [] e.how = "bytes" -> DRead(e.k, Slice(e.buf, e.off, Size(e.k)))
    [] e.how = "num" -> [k |-> e.k, v |-> e.nums]
    [] e.how = "copy" -> objs[e.of]
    [] e.how = "xor" -> [k |-> "U", v |-> XorSeq(objs[e.of].v, objs[e.with].v, 4)]
DDo(objs, e) ==
  CASE e.op = "mk" -> Append(objs, DMake(objs, e))
    [] e.op = "set" -> [objs EXCEPT ![e.o] = DMake(objs, [e EXCEPT !.k = objs[e.o].k])]
    [] e.op = "rnd" -> IF objs[e.o] = DZero("U") THEN [objs EXCEPT ![e.o].v = [i \in 1..32 |-> i % 16]] ELSE objs
DObs(objs) == [i \in 1..Len(objs) |-> [op |-> "obs", o |-> i, b |-> DBytes(objs[i]), text |-> IF objs[i].k = "U" THEN Text(DBytes(objs[i])) ELSE <<>>,
                                       comps |-> IF objs[i].k = "U" THEN <<>> ELSE objs[i].v]]
DDist(objs, a, b) == [op |-> "dist", a |-> a, b |-> b, err |-> "",
                      d |-> IF Eighths(objs[a].v) /\ Eighths(objs[b].v) THEN Odd(Square(objs[a].v, objs[b].v), -6) ELSE [m |-> 0, e |-> 0]]
DEq(objs, a, b) == [op |-> "eq", a |-> a, b |-> b, eq |-> objs[a] = objs[b], ne |-> objs[a] # objs[b], he |-> objs[a] = objs[b]]
\* texts that are made three bytes at a time
DPad(b) == b \o Rep((3 - (Len(b) % 3)) % 3, 0)
D64(b) == LET q == Four(DPad(b))
              n == (3 - (Len(b) % 3)) % 3
          IN [i \in 1..Len(q) |-> IF i > Len(q) - n THEN 61 ELSE OfSix(q[i])] \o <<10>>
DUu(b) == LET q == Four(DPad(b)) IN <<32 + Len(b)>> \o [i \in 1..Len(q) |-> 32 + q[i]] \o <<10>>
\* an integer, small enough for this, by division
DInt(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
DMag(n) == LET a == Abs(n) IN <<a % 256, (a \div 256) % 256, a \div 65536>>
\* lo + u * step, and zero when less than a step away from it
DFrac(e) == LET u == Code(e)
                near == Abs(u * (e.hi - e.lo) + e.lo * MaxCode(e.w)) < e.hi - e.lo
            IN [e EXCEPT !.zero = near \/ u * (e.hi - e.lo) + e.lo * MaxCode(e.w) = 0,
                         !.p = IF near THEN ((-e.lo * MaxCode(e.w) * 10) \div (e.hi - e.lo)) * 100 ELSE 1000 * u]
=============================================================================
