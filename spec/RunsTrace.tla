----------------------------- MODULE RunsTrace ------------------------------
EXTENDS Runs, TraceBase
=============================================================================
