---- MODULE TraceVal ----
EXTENDS Val, TraceBase
====
