---- MODULE TraceBld ----
EXTENDS Bld, TraceBase
====
