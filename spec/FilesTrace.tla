----------------------------- MODULE FilesTrace ------------------------------
EXTENDS Files, TraceBase
=============================================================================
