-------------------------------- MODULE Bld --------------------------------
(***************************************************************************)
(* Messages put together from blocks and fields, and the incremental       *)
(* builder.  Part 1: the clauses of C22.  Part 2: the design.  Events:     *)
(*  blk:  a new block: name, fs (sequence of [f, v])                       *)
(*  fld:  b, f, v: a field added to a block                                *)
(*  msg:  a new message: name, bs (blocks, by number, in order)            *)
(*  add:  m, b: a block added to a message                                 *)
(*  look: m, via, name, blocks: what a message shows through its blocks,   *)
(*        through its accessors, as a dictionary, as LLSD                  *)
(*  bnew, bnext, badd, bbuild: u (builder), name / f, v / blocks, n        *)
(* blocks: sequence of [b, is], is a sequence of sequences of [f, v].      *)
(* A field given twice in a block has the value given last.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

When(b, c) == IF b THEN {c} ELSE {}
Rng(q) == {q[i] : i \in 1..Len(q)}
\* the fields of a block: a set, the last of each name
Final(fs) == {fs[i] : i \in {j \in 1..Len(fs) : \A k \in (j + 1)..Len(fs) : fs[k].f # fs[j].f}}
\* what blocks look like: a set of [b, is]
Shown(bs) == {[b |-> n, is |-> LET q == SelectSeq(bs, LAMBDA x : x.name = n) IN [i \in 1..Len(q) |-> Final(q[i].fs)]] : n \in {bs[i].name : i \in 1..Len(bs)}}
Seen(blocks) == {[b |-> blocks[i].b, is |-> [j \in 1..Len(blocks[i].is) |-> Rng(blocks[i].is[j])]] : i \in 1..Len(blocks)}
\* nothing appears twice
Once(blocks) == /\ Cardinality({blocks[i].b : i \in 1..Len(blocks)}) = Len(blocks)
                /\ \A i \in 1..Len(blocks), j \in 1..100 : j <= Len(blocks[i].is) => Cardinality({blocks[i].is[j][k].f : k \in 1..Len(blocks[i].is[j])}) = Len(blocks[i].is[j])

BldInit(cfg) == [blks |-> <<>>, msgs |-> <<>>, u |-> [i \in 1..3 |-> <<>>]]
BldStep(s, e) ==
  CASE e.op = "blk" -> [s EXCEPT !.blks = Append(@, [name |-> e.name, fs |-> e.fs])]
    [] e.op = "fld" -> [s EXCEPT !.blks[e.b].fs = Append(@, [f |-> e.f, v |-> e.v])]
    [] e.op = "msg" -> [s EXCEPT !.msgs = Append(@, [name |-> e.name, bs |-> e.bs])]
    [] e.op = "add" -> [s EXCEPT !.msgs[e.m].bs = Append(@, e.b)]
    [] e.op = "bnew" -> [s EXCEPT !.u[e.u] = <<>>]
    [] e.op = "bnext" -> [s EXCEPT !.u[e.u] = Append(@, [name |-> e.name, fs |-> <<>>])]
    [] e.op = "badd" -> [s EXCEPT !.u[e.u][Len(s.u[e.u])].fs = Append(@, [f |-> e.f, v |-> e.v])]
    [] OTHER -> s
Blocks(s, m) == [i \in 1..Len(s.msgs[m].bs) |-> s.blks[s.msgs[m].bs[i]]]
Names(x) == {[b |-> y.b, n |-> Len(y.is)] : y \in x}
BldBad(s, e) ==
  CASE e.op = "look" -> LET w == Shown(Blocks(s, e.m)) IN
                        When(e.name # s.msgs[e.m].name, "C22.name")
                        \cup (IF e.err # "" THEN {"C22.error"} ELSE
                              When(Names(w) # Names(Seen(e.blocks)) \/ ~Once(e.blocks), "C22.blocks") \cup When(w # Seen(e.blocks), "C22.fields"))
    [] e.op = "bbuild" -> LET w == Shown(s.u[e.u]) IN
                          IF e.err # "" THEN {"C22.error"} ELSE When(w # Seen(e.blocks) \/ ~Once(e.blocks) \/ e.n # Cardinality(w), "C22.build")
    [] OTHER -> When(e.err # "", "C22.error")

RECURSIVE Judge(_, _, _)
Judge(s, b, es) == IF es = <<>> THEN [s |-> s, b |-> b] ELSE Judge(BldStep(s, Head(es)), b \cup BldBad(s, Head(es)), Tail(es))

-----------------------------------------------------------------------------
(* Part 2: the design.  A block holds its fields by name; a message and a   *)
(* builder hold lists of blocks by name (names and lists in order of        *)
(* arrival); blocks are shared.                                             *)
D0 == [blks |-> <<>>, msgs |-> <<>>, u |-> [i \in 1..3 |-> [by |-> <<>>, cur |-> 0]]]
SetField(fs, f, v) == IF \E i \in 1..Len(fs) : fs[i].f = f THEN [i \in 1..Len(fs) |-> IF fs[i].f = f THEN [f |-> f, v |-> v] ELSE fs[i]] ELSE Append(fs, [f |-> f, v |-> v])
Under(by, n, b) == IF \E i \in 1..Len(by) : by[i].b = n THEN [i \in 1..Len(by) |-> IF by[i].b = n THEN [by[i] EXCEPT !.l = Append(@, b)] ELSE by[i]]
                   ELSE Append(by, [b |-> n, l |-> <<b>>])
DDo(d, e) ==
  CASE e.op = "blk" -> [d EXCEPT !.blks = Append(@, [name |-> e.name, fs |-> FoldLeft(LAMBDA a, x : SetField(a, x.f, x.v), <<>>, e.fs)])]
    [] e.op = "fld" -> [d EXCEPT !.blks[e.b].fs = SetField(@, e.f, e.v)]
    [] e.op = "msg" -> [d EXCEPT !.msgs = Append(@, [name |-> e.name, by |-> FoldLeft(LAMBDA a, b : Under(a, d.blks[b].name, b), <<>>, e.bs)])]
    [] e.op = "add" -> [d EXCEPT !.msgs[e.m].by = Under(@, d.blks[e.b].name, e.b)]
    [] e.op = "bnew" -> [d EXCEPT !.u[e.u] = [by |-> <<>>, cur |-> 0]]
    [] e.op = "bnext" -> LET k == Len(d.blks) + 1 IN [d EXCEPT !.blks = Append(@, [name |-> e.name, fs |-> <<>>]), !.u[e.u] = [by |-> Under(@.by, e.name, k), cur |-> k]]
    [] e.op = "badd" -> [d EXCEPT !.blks[d.u[e.u].cur].fs = SetField(@, e.f, e.v)]
    [] OTHER -> d
DShow(d, by) == [i \in 1..Len(by) |-> [b |-> by[i].b, is |-> [j \in 1..Len(by[i].l) |-> d.blks[by[i].l[j]].fs]]]
DLook(d, m) == [op |-> "look", m |-> m, name |-> d.msgs[m].name, blocks |-> DShow(d, d.msgs[m].by), err |-> ""]
DBuild(d, u) == [op |-> "bbuild", u |-> u, blocks |-> DShow(d, d.u[u].by), n |-> Len(d.u[u].by), err |-> ""]
=============================================================================
