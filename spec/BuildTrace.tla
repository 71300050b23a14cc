----------------------------- MODULE BuildTrace ------------------------------
EXTENDS Build, TraceBase
=============================================================================
