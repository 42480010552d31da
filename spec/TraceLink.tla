---- MODULE TraceLink ----
EXTENDS Link, TraceBase
====
