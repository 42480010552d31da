-------------------------------- MODULE Log --------------------------------
(***************************************************************************)
(* Logging settings never change what is done.  One history is run under   *)
(* several settings at once (a self-composition): the runs must not differ *)
(* in anything that can be observed, and quiet settings leave every option *)
(* off.  Part 1: the clauses of C23.  Part 2: the design: the dispatcher   *)
(* of Net.tla with the steps its logging takes in between.                 *)
(* Events:                                                                 *)
(*  made:  on      for each run the options that are on in new settings    *)
(*  did:   what, obs   for each run a token of what was observed           *)
(*  lines: n       for each run how many lines were logged in all          *)
(* cfg.vs: for each run [quiet, plain]; plain: settings as made, with      *)
(* nothing changed afterwards.  The first run has every option off.        *)
(***************************************************************************)
EXTENDS Net

WhenL(b, c) == IF b THEN {c} ELSE {}
LogInit(cfg) == [vs |-> cfg.vs, did |-> 0, part |-> FALSE]
LogStep(s, e) == IF e.op = "did" THEN [s EXCEPT !.did = @ + 1, !.part = @ \/ \E i \in 2..Len(e.obs) : e.obs[i] # e.obs[1]] ELSE s
LogBad(s, e) ==
  CASE e.op = "made" -> WhenL(\E i \in 1..Len(s.vs) : s.vs[i].quiet /\ e.on[i] # <<>>, "C23.quiet")
    [] e.op = "did" -> WhenL(~s.part /\ \E i \in 2..Len(e.obs) : e.obs[i] # e.obs[1], "C23.behaviour")
    \* once the runs have parted they cannot be compared line by line
    [] e.op = "lines" -> WhenL(~s.part /\ \E i \in 2..Len(s.vs) : s.vs[i].quiet /\ s.vs[i].plain /\ e.n[i] > e.n[1], "C23.quietlines")
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Part 2.  Settings: the set of options that are on; "spam" stands for     *)
(* DISABLE_SPAMMERS, which turns lines off.  Leak: ways in which logging    *)
(* may come to matter; "none" is the design.                                *)
Options == {"udp", "hex", "host", "verbose", "skipped"}
Made(quiet, spammy) == IF quiet THEN {"spam"} ELSE IF spammy THEN Options ELSE (Options \ {"hex"}) \cup {"spam"}
Spammers == {"PacketAck", "AgentUpdate"}
\* what the logging of a message sent or received does: which strings it has made, and which it puts together
Strings(sw, Leak) == (IF "hex" \in sw \/ Leak # "hex" THEN {"hex"} ELSE {}) \cup (IF "host" \in sw \/ Leak # "host" THEN {"host"} ELSE {})
Logs(sw, dg) == "udp" \in sw /\ ~(dg.name \in Spammers /\ "spam" \in sw)
SendLines(sw, out) == Len(SelectSeq(out, LAMBDA dg : Logs(sw, dg)))
\* a datagram whose logging fails is not sent; with the leak "spam" one that is not logged is not sent either
Leaves(sw, Leak, dg) == /\ Logs(sw, dg) => Strings(sw, Leak) = {"hex", "host"}
                        /\ Leak = "spam" => ~("udp" \in sw /\ dg.name \in Spammers /\ "spam" \in sw)
\* the observation of one operation under given settings, and the lines it logs
LogOp(sw, Leak, r) ==
  LET e == r[2]
      out == SelectSeq(e.out, LAMBDA dg : Leaves(sw, Leak, dg))
      taken == e.op = "recv" /\ e.err = "" /\ e.ret # ""
      fails == taken /\ "udp" \in sw /\ Strings(sw, Leak) # {"hex", "host"}
      skip == e.op = "recv" /\ e.valid /\ ~taken
  IN [ev |-> IF fails THEN [e EXCEPT !.err = "raised", !.dels = <<>>, !.ret = ""]
             ELSE [e EXCEPT !.out = out, !.ret = IF e.op = "send" /\ out = <<>> THEN "" ELSE @,
                            !.dels = IF Leak = "dels" /\ "udp" \notin sw THEN <<>> ELSE @],
      lines |-> SendLines(sw, e.out) + (IF taken /\ "udp" \in sw THEN 1 ELSE 0)
                + (IF skip /\ {"verbose", "udp", "skipped"} \subseteq sw THEN 1 ELSE 0)
                + (IF e.op \in {"reg", "sub", "unsub"} /\ "verbose" \in sw THEN 1 ELSE 0)]
=============================================================================
