----------------------------- MODULE TraceBase -----------------------------
(* code -> specification.  Each line of the trace is one recorded call      *)
(* (operation, arguments, observed outcome).  W independent cursors walk    *)
(* the trace; every step evaluates Conforms on the next recorded call.      *)
(* A rejected call is printed with what the specification expects.          *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils
CONSTANTS Conforms(_, _, _), Wanted(_, _)
VARIABLE k
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
W == 16
Consume(n) ==
  LET rec == Trace[n] IN
  IF Conforms(rec.o, rec.i, rec.r) THEN TRUE
  ELSE PrintT("REJECT " \o ToString(n) \o " " \o ToJson(Wanted(rec.o, rec.i)))
TraceInit == k \in 1..W
TraceNext == k <= N /\ Consume(k) /\ k' = k + W
TraceSpec == TraceInit /\ [][TraceNext]_k
\* every line was consumed: N steps were taken from the W initial cursors
TraceAccepted == /\ TLCGet("stats").distinct = N + W
                 /\ PrintT("TRACE-COMPLETE")
=============================================================================
