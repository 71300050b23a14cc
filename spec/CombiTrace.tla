----------------------------- MODULE CombiTrace ------------------------------
EXTENDS Combi, TraceBase
=============================================================================
