---- MODULE TraceCaps ----
EXTENDS Caps, TraceBase
====
