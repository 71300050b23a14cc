----------------------------- MODULE BinaryTrace ------------------------------
EXTENDS Binary, TraceBase
=============================================================================
