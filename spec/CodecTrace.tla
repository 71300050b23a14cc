----------------------------- MODULE CodecTrace -----------------------------
EXTENDS Codec, TraceBase
=============================================================================
