---- MODULE TraceUdp ----
EXTENDS Udp, TraceBase
====
