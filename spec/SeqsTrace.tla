----------------------------- MODULE SeqsTrace ------------------------------
EXTENDS Seqs, TraceBase
=============================================================================
