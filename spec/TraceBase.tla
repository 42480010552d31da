---------------------------- MODULE TraceBase ----------------------------
(* Checks recorded executions of the implementation against a monitor.    *)
(* The monitor is given by MInit(cfg), MStep(s, e) and MBad(s, e): the    *)
(* initial abstract state, the abstract state after event e, and the set  *)
(* of names of the clauses that event e breaks in state s.  All events    *)
(* are total: whatever was observed, MStep yields a state, so a trace is  *)
(* judged to its end and every failing clause is named.                   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

RECURSIVE SetAsSeq(_)
SetAsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetAsSeq(S \ {x})

CONSTANTS MInit(_), MStep(_, _), MBad(_, _)

Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
Focus == IOEnv.VF_FOCUS

VARIABLES tid, l, s

TBInit == /\ tid \in 1..Len(Traces)
          /\ l = 1
          /\ s = MInit(Traces[tid].cfg)

TBNext ==
  /\ l <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[l]
         bad == MBad(s, e)
     IN /\ (bad # {} => PrintT("BAD " \o ToJson(<<tid, l, SetAsSeq(bad)>>)))
        /\ s' = MStep(s, e)
  /\ l' = l + 1
  /\ tid' = tid

TBSpec == TBInit /\ [][TBNext]_<<tid, l, s>>
\* only (tid, l) matters: the monitor is deterministic
TBView == <<tid, l>>
==========================================================================
