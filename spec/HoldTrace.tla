----------------------------- MODULE HoldTrace ------------------------------
EXTENDS Hold, TraceBase
=============================================================================
