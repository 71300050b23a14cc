----------------------------- MODULE ExtStrTrace ------------------------------
EXTENDS ExtStr, TraceBase
=============================================================================
