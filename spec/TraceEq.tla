---- MODULE TraceEq ----
EXTENDS Eq, TraceBase
====
