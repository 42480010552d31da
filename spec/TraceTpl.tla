---- MODULE TraceTpl ----
EXTENDS Tpl, TraceBase
====
