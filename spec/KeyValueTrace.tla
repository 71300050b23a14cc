----------------------------- MODULE KeyValueTrace ------------------------------
EXTENDS KeyValue, TraceBase
=============================================================================
