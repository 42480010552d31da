------------------------------- MODULE Tpl -------------------------------
(***************************************************************************)
(* Message template files.  A file is a sequence of tokens [s, n]: braces, *)
(* "//", end of line "NL", and words (n is the value of a numeral).        *)
(* Part 1: the grammar, which knows comments and nesting but no lines,     *)
(* and the clauses of C14.  Part 2: the design, which works line by line.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

When(b, c) == IF b THEN {c} ELSE {}
Rng(q) == {q[i] : i \in 1..Len(q)}

Plain == [U8 |-> 1, U16 |-> 2, U32 |-> 4, U64 |-> 8, S8 |-> 1, S16 |-> 2, S32 |-> 4, S64 |-> 8, F32 |-> 4, F64 |-> 8,
          LLVector3 |-> 12, LLVector3d |-> 24, LLVector4 |-> 16, LLQuaternion |-> 12, LLUUID |-> 16, BOOL |-> 1,
          IPADDR |-> 4, IPPORT |-> 2]

\* what the words of a message header, block header and field say
MsgOf(w) == [name |-> w[1].s, freq |-> w[2].s, num |-> IF w[2].s = "Fixed" THEN w[3].n % 256 ELSE w[3].n, trust |-> w[4].s, enc |-> w[5].s,
             dep |-> IF Len(w) > 5 THEN w[6].s ELSE "NotDeprecated", blocks |-> <<>>]
BlkOf(w) == [name |-> w[1].s, kind |-> w[2].s, n |-> IF w[2].s = "Multiple" THEN w[3].n ELSE 0, fields |-> <<>>]
FldOf(w) == [name |-> w[1].s, type |-> w[2].s, size |-> IF w[2].s \in {"Fixed", "Variable"} THEN w[3].n ELSE Plain[w[2].s]]

AddBlock(ms, b) == [ms EXCEPT ![Len(ms)].blocks = Append(@, b)]
AddField(ms, f) == LET m == ms[Len(ms)] IN [ms EXCEPT ![Len(ms)].blocks[Len(m.blocks)].fields = Append(@, f)]
Put(ms, d, w) == IF w = <<>> \/ d = 0 THEN ms
                 ELSE IF d = 1 THEN Append(ms, MsgOf(w))
                 ELSE IF d = 2 THEN AddBlock(ms, BlkOf(w))
                 ELSE AddField(ms, FldOf(w))

\* the grammar as an automaton over tokens
P0 == [d |-> 0, com |-> FALSE, w |-> <<>>, ms |-> <<>>]
PTok(p, t) ==
  IF t.s = "NL" THEN [p EXCEPT !.com = FALSE, !.w = IF p.d = 0 THEN <<>> ELSE @]
  ELSE IF p.com THEN p
  ELSE IF t.s = "//" THEN [p EXCEPT !.com = TRUE]
  ELSE IF t.s = "{" THEN [p EXCEPT !.ms = Put(@, p.d, p.w), !.w = <<>>, !.d = @ + 1]
  ELSE IF t.s = "}" THEN [p EXCEPT !.ms = Put(@, p.d, p.w), !.w = <<>>, !.d = @ - 1]
  ELSE [p EXCEPT !.w = Append(@, t)]
Parse(toks) == FoldLeft(PTok, P0, toks).ms

MsgNum(t) ==
  CASE t.freq = "High" -> <<t.num>>
    [] t.freq = "Medium" -> <<255, t.num>>
    [] t.freq = "Low" -> <<255, 255, t.num \div 256, t.num % 256>>
    [] OTHER -> <<255, 255, 255, t.num>>

Head6(m) == [name |-> m.name, freq |-> m.freq, num |-> m.num, trust |-> m.trust, enc |-> m.enc, dep |-> m.dep]
BHead(b) == [name |-> b.name, kind |-> b.kind, n |-> b.n]

\* the state of the monitor: the messages of the files parsed so far
TplInit(cfg) == [files |-> <<>>]
TplStep(s, e) == IF e.op = "parse" THEN [files |-> Append(s.files, Parse(e.toks))] ELSE s

\* what the parts of a template say of themselves in words, without the bytes of the number
Shown(q) == [i \in 1..Len(q) |-> [f \in (DOMAIN q[i]) \ {"hex"} |-> q[i][f]]]
ParseBad(x, e) ==
  LET g == e.got IN
  When(e.err # "", "C14.error")
  \cup When([i \in 1..Len(g) |-> g[i].name] # [i \in 1..Len(x) |-> x[i].name], "C14.messages")
  \cup When(Shown(e.shown) # [i \in 1..Len(g) |-> g[i]], "C14.shown")
  \cup When(e.names # [i \in 1..Len(g) |-> g[i].name], "C14.list")
  \cup When(\E i \in 1..Len(e.shown) : e.shown[i].hex # MsgNum(g[i]), "C14.number")
  \cup (IF Len(g) # Len(x) THEN {}
        ELSE When(\E i \in 1..Len(x) : Head6(g[i]) # Head6(x[i]), "C14.header")
             \cup When(\E i \in 1..Len(x) : [j \in 1..Len(g[i].blocks) |-> BHead(g[i].blocks[j])]
                                            # [j \in 1..Len(x[i].blocks) |-> BHead(x[i].blocks[j])], "C14.blocks")
             \cup When(\E i \in 1..Len(x) : Len(g[i].blocks) = Len(x[i].blocks)
                         /\ \E j \in 1..Len(x[i].blocks) : g[i].blocks[j].fields # x[i].blocks[j].fields, "C14.fields"))

TplBad(s, e) ==
  CASE e.op = "parse" -> ParseBad(Parse(e.toks), e)
    [] e.op = "name" -> LET ms == s.files[e.d]
                            c == {i \in 1..Len(ms) : ms[i].name = e.name} IN
                        When(e.got # (IF c = {} THEN "" ELSE e.name), "C14.by_name")
                        \cup When(c # {} /\ e.got = e.name /\ \A i \in c : e.hex # MsgNum(ms[i]), "C14.number")
    [] e.op = "pair" -> LET ms == s.files[e.d]
                            c == {i \in 1..Len(ms) : ms[i].freq = e.freq /\ ms[i].num = e.num} IN
                        When(IF c = {} THEN e.got # "" ELSE \A i \in c : e.got # ms[i].name, "C14.by_number")
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Part 2: the design.  Lines are sequences of tokens; a line raises the   *)
(* state if it has an opening brace, is matched against the header or      *)
(* field pattern of the state, and lowers the state if it has a closing    *)
(* brace.  The patterns look for words standing next to each other.        *)
Strip(ln) == IF \E i \in 1..Len(ln) : ln[i].s = "//" THEN SubSeq(ln, 1, (CHOOSE i \in 1..Len(ln) : ln[i].s = "//" /\ \A j \in 1..i-1 : ln[j].s # "//") - 1) ELSE ln
IsWord(t) == t.s \notin {"{", "}", "//", "NL"}
\* the longest run of words starting with the first run of at least n words
RunAt(ln, i) == {k \in 1..Len(ln) - i + 1 : \A j \in i..i+k-1 : IsWord(ln[j])}
Match(ln, n) == LET c == {i \in 1..Len(ln) : n \in RunAt(ln, i)} IN
                IF c = {} THEN <<>>
                ELSE LET i == CHOOSE i \in c : \A j \in c : i <= j
                         k == CHOOSE k \in RunAt(ln, i) : \A x \in RunAt(ln, i) : x <= k
                     IN SubSeq(ln, i, i + k - 1)
LineStep(p, raw) ==
  LET ln == Strip(raw)
      up == IF \E i \in 1..Len(ln) : ln[i].s = "{" THEN p.d + 1 ELSE p.d
      w == Match(ln, IF up = 1 THEN 5 ELSE 2)
      ms == IF up \in 1..3 THEN Put(p.ms, up, w) ELSE p.ms
  IN [ms |-> ms, d |-> IF \E i \in 1..Len(ln) : ln[i].s = "}" THEN up - 1 ELSE up]
RECURSIVE LinesRun(_, _)
LinesRun(p, ls) == IF ls = <<>> THEN p ELSE LinesRun(LineStep(p, Head(ls)), Tail(ls))
LineParse(ls) == LinesRun([ms |-> <<>>, d |-> 0], ls).ms
=============================================================================
