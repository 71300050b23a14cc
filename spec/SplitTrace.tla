----------------------------- MODULE SplitTrace -----------------------------
EXTENDS Split, TraceBase
=============================================================================
