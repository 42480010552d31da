------------------------------- MODULE MC_Val -------------------------------
(* Every history of up to Depth steps that make, copy, combine, overwrite   *)
(* and randomise objects; and every code of eight bits between many bounds. *)
EXTENDS Val, Json, IOUtils
CONSTANT Depth
Emit == IOEnv.VF_EMIT = "1"
VARIABLES objs, mon, bad, h
vars == <<objs, mon, bad, h>>

Buf == [i \in 1..20 |-> (i * 37 + 200) % 251]
Zero == Rep(20, 0)
Chars == {Text(Slice(Buf, 1, 16)), Hex(Slice(Buf, 0, 16)), <<123>> \o Text(Rep(16, 255)) \o <<125>>, Urn \o Text(Rep(16, 0))}
N(m, e) == [m |-> m, e |-> e]
Bits(x, y, z) == F32(x) \o F32(y) \o F32(z) \o F32(N(-5, -3)) \o <<1, 2, 3>>
NumBuf == <<9>> \o Bits(N(3, -1), N(-1, 20), N(0, 0))
Made(k) == IF k = "U" THEN {[how |-> "zero"]} \cup {[how |-> "text", chars |-> c] : c \in Chars} \cup {[how |-> "bytes", buf |-> b, off |-> f, len |-> 4] : b \in {Buf, Zero}, f \in {0, 3}}
           ELSE {[how |-> "zero"], [how |-> "bytes", buf |-> NumBuf, off |-> 1, len |-> 4],
                 [how |-> "num", nums |-> IF k = "V" THEN <<N(1, 0), N(-3, 5), N(5, -3)>> ELSE <<N(1, 0), N(-3, 5), N(12345677, -24), N(0, 0)>>]}
Op(x, k, op, o) == [f \in {"op", "k", "how", "chars", "buf", "off", "len", "nums", "of", "with", "err", "o"} |->
                      CASE f = "op" -> op [] f = "k" -> k [] f = "o" -> o [] f \in DOMAIN x -> x[f]
                        [] f \in {"chars", "buf", "nums"} -> <<>> [] f = "off" -> 0 [] f = "len" -> 4 [] f \in {"of", "with"} -> 1 [] f = "err" -> "" [] OTHER -> "zero"]
Kinds == {"U", "V", "Q"}
Steps == UNION {{Op(x, k, "mk", 0) : x \in Made(k)} : k \in Kinds}
         \cup {Op([how |-> "copy", of |-> i], objs[i].k, "mk", 0) : i \in 1..Len(objs)}
         \cup {Op([how |-> "xor", of |-> p[1], with |-> p[2]], "U", "mk", 0) : p \in {q \in (1..Len(objs)) \X (1..Len(objs)) : objs[q[1]].k = "U" /\ objs[q[2]].k = "U"}}
         \cup UNION {{Op(x, objs[i].k, "set", i) : x \in {y \in Made(objs[i].k) : y.how \in {"bytes", "num"}}} : i \in 1..Len(objs)}
         \cup {Op([how |-> "zero"], "U", "rnd", i) : i \in {j \in 1..Len(objs) : objs[j].k = "U"}}
Us(os) == {i \in 1..Len(os) : os[i].k = "U"}
Eqs(os) == LET ps == Us(os) \X Us(os) IN SetToSeq({DEq(os, p[1], p[2]) : p \in ps})
Dists(os) == SetToSeq({DDist(os, p[1], p[2]) : p \in {q \in (1..Len(os)) \X (1..Len(os)) : os[q[1]].k = "V" /\ os[q[2]].k = "V"}})
Init == objs = <<>> /\ mon = ValInit(<<>>) /\ bad = {} /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E x \in Steps :
             LET os == DDo(objs, x)
                 r == Judge(mon, {}, <<x>> \o DObs(os) \o Eqs(os) \o Dists(os))
             IN objs' = os /\ mon' = r.s /\ bad' = r.b /\ h' = Append(h, x) /\ (Emit /\ Len(h') = Depth => PrintT("SCN " \o ToJson([ops |-> h'])))
Spec == Init /\ [][Next]_vars
View == <<objs, mon, bad, Len(h)>>
Full == vars
NoBad == bad = {}
\* byte patterns read as numbers give the same bytes back, and text gives the same identifier back
Patterns == {<<a, b, c, d>> : a \in {0, 1, 255}, b \in {0, 128, 7}, c \in {0, 127, 129, 128}, d \in {0, 63, 64, 191, 126}}
ASSUME \A p \in Patterns : LET n == Num(p) IN (n.m # 0 /\ n.e + Log2(Abs(n.m)) >= -126 /\ (p[3] < 128 \/ p[4] % 128 # 127)) => F32(n) = p
ASSUME \A p \in Patterns : LET b == p \o p \o <<1, 2, 3, 4>> \o p IN Bytes(Digits(Text(b))) = b /\ Bytes(Digits(Hex(b))) = b
ASSUME \A u \in 0..255, b \in {<<0, 8>>, <<-8, 8>>, <<-1, 7>>, <<3, 100>>, <<-512, 512>>, <<-100, 0>>, <<0, 1>>, <<-9, -2>>} :
         Frac(DFrac([w |-> 1, buf |-> <<u>>, off |-> 0, lo |-> b[1], hi |-> b[2], p |-> 0, zero |-> FALSE, err |-> ""])) = {}
\* conversions
Some == {0, 1, 15, 63, 64, 127, 128, 200, 255}
Strings == UNION {[1..n -> Some] : n \in 0..3} \cup {[i \in 1..n |-> (i * 91 + n) % 256] : n \in 4..45}
ASSUME \A b \in Strings : /\ Is64(D64(b), b) /\ IsUu(DUu(b), b) /\ Three(Four(DPad(b))) = DPad(b)
                           /\ UnHex(SelectSeq(HexPairs(b), LAMBDA c : c # 32)) = b
                           /\ \A c \in Strings : (Len(b) <= 2 /\ Len(c) <= 2 /\ b # c) => ~Is64(D64(b), c) /\ ~IsUu(DUu(b), c)
ASSUME \A n \in {0, 1, -1, 255, 256, -256, -255, 65535, 65536, -65536, 16777215, -16777215, 12345678, -12345678} : Int4(n < 0, DMag(n)) = DInt(n)
=============================================================================
