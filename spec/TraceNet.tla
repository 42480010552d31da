---- MODULE TraceNet ----
EXTENDS Net, TraceBase
====
