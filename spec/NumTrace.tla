------------------------------ MODULE NumTrace ------------------------------
EXTENDS Num, TraceBase
=============================================================================
