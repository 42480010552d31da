---- MODULE TracePack ----
EXTENDS Pack, TraceBase
====
