---------------------------- MODULE ColumnsTrace ----------------------------
EXTENDS Columns, TraceBase
=============================================================================
