----------------------------- MODULE ToolsTrace ------------------------------
EXTENDS Tools, TraceBase
=============================================================================
