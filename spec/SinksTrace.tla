----------------------------- MODULE SinksTrace -----------------------------
EXTENDS Sinks, TraceBase
=============================================================================
