---- MODULE TraceCodec ----
EXTENDS Codec, TraceBase
====
