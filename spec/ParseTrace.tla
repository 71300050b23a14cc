----------------------------- MODULE ParseTrace -----------------------------
EXTENDS Parse, TraceBase
=============================================================================
