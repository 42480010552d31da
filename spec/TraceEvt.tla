---- MODULE TraceEvt ----
EXTENDS Evt, TraceBase
====
