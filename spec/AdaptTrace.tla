----------------------------- MODULE AdaptTrace -----------------------------
EXTENDS Adapt, TraceBase
=============================================================================
