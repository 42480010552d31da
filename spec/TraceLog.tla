---- MODULE TraceLog ----
EXTENDS Log, TraceBase
====
