---------------------------- MODULE ArraysTrace -----------------------------
EXTENDS Arrays, TraceBase
=============================================================================
