---- MODULE TraceWait ----
EXTENDS Wait, TraceBase
====
