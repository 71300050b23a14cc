----------------------------- MODULE LayoutTrace ------------------------------
EXTENDS Layout, TraceBase
=============================================================================
