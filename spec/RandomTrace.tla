----------------------------- MODULE RandomTrace ------------------------------
EXTENDS Random, TraceBase
=============================================================================
