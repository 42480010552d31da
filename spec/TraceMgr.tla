---- MODULE TraceMgr ----
EXTENDS Mgr, TraceBase
====
