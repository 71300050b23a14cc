----------------------------- MODULE BitsTrace ------------------------------
EXTENDS Bits, TraceBase
=============================================================================
