---------------------------- MODULE RemoveTrace -----------------------------
EXTENDS Remove, TraceBase
=============================================================================
