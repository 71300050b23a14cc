----------------------------- MODULE BloomTrace ------------------------------
EXTENDS Bloom, TraceBase
=============================================================================
