------------------------------ MODULE MC_Tpl ------------------------------
(* All files of up to Depth lines in the line-by-line layout: the design   *)
(* reads them as the grammar does.                                          *)
EXTENDS Tpl, Json, IOUtils
CONSTANT Depth
Emit == IOEnv.VF_EMIT = "1"
VARIABLES lines, pos, nm

W(s) == [s |-> s, n |-> -1]
N(s, n) == [s |-> s, n |-> n]
OB == W("{")
CB == W("}")
Com == IF IOEnv.VF_COM = "0" THEN {<<>>} ELSE {<<>>, <<W("//"), CB, OB, W("X"), W("U8"), W("a"), W("b"), W("c")>>}
Hdrs == {<<W("M" \o ToString(nm)), W("Low"), N(ToString(300 + nm), 300 + nm), W("Trusted"), W("Zerocoded")>>,
         <<W("M" \o ToString(nm)), W("Fixed"), N("0xFFFFFFFB", 251), W("NotTrusted"), W("Unencoded"), W("UDPDeprecated")>>}
Blks == {<<W("B"), W("Single")>>, <<W("B"), W("Multiple"), N("4", 4)>>, <<W("C"), W("Variable")>>}
Flds == {<<W("X"), W("U32")>>, <<W("Y"), W("Variable"), N("2", 2)>>}

\* <<line, next position>> choices
NextLines ==
  CASE pos = "top" -> {<< <<OB>>, "m0" >>} \cup {<< <<OB>> \o h, "m" >> : h \in Hdrs} \cup {<< <<OB>> \o h \o <<CB>>, "top" >> : h \in Hdrs}
    [] pos = "m0" -> {<<h, "m">> : h \in Hdrs}
    [] pos = "m" -> {<< <<OB>>, "b0" >>, << <<CB>>, "top" >>} \cup {<< <<OB>> \o b, "b" >> : b \in Blks} \cup {<< <<OB>> \o b \o <<CB>>, "m" >> : b \in Blks}
    [] pos = "b0" -> {<<b, "b">> : b \in Blks}
    [] pos = "b" -> {<< <<CB>>, "m" >>, << <<OB>>, "f0" >>} \cup {<< <<OB>> \o f \o <<CB>>, "b" >> : f \in Flds} \cup {<< <<OB>> \o f, "f1" >> : f \in Flds}
    [] pos = "f0" -> {<<f, "f1">> : f \in Flds} \cup {<< f \o <<CB>>, "b" >> : f \in Flds}
    [] OTHER -> {<< <<CB>>, "b" >>}
NL == W("NL")
RECURSIVE Flat(_)
Flat(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o <<NL>> \o Flat(Tail(ls))
Files(ls) == <<W("version"), W("2.0"), NL>> \o Flat(ls)

Init == lines = <<>> /\ pos = "top" /\ nm = 1
\* the lines still needed to close everything
Need == CASE pos = "top" -> 0 [] pos = "m0" -> 2 [] pos = "m" -> 1 [] pos = "b0" -> 3 [] pos = "b" -> 2 [] pos = "f0" -> 3 [] OTHER -> 3
Next == /\ Len(lines) < Depth
        /\ \/ \E c \in NextLines, k \in Com :
                 /\ lines' = Append(lines, c[1] \o k) /\ pos' = c[2] /\ nm' = IF c[2] = "m" /\ pos \in {"top", "m0"} THEN nm + 1 ELSE IF c[2] = "top" /\ pos = "top" THEN nm + 1 ELSE nm
           \/ \E k \in Com \ {<<>>} : lines' = Append(lines, k) /\ UNCHANGED <<pos, nm>>
        /\ Len(lines') + (CASE pos' = "top" -> 0 [] pos' = "m0" -> 2 [] pos' = "m" -> 1 [] pos' = "b0" -> 3 [] pos' = "b" -> 2 [] OTHER -> 3) <= Depth
        /\ (Emit /\ pos' = "top" /\ nm' > 1 => PrintT("SCN " \o ToJson(lines')))
Spec == Init /\ [][Next]_<<lines, pos, nm>>
View == <<lines, pos, nm>>
SameReading == pos = "top" => LineParse(lines) = Parse(Files(lines))
=============================================================================
