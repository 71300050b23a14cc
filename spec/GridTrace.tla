----------------------------- MODULE GridTrace ------------------------------
EXTENDS Grid, TraceBase
=============================================================================
