---------------------------- MODULE SearchTrace -----------------------------
EXTENDS Search, TraceBase
=============================================================================
