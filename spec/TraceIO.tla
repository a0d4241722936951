------------------------------ MODULE TraceIO ------------------------------
(* Shared by the trace specifications: the recorded cases are read from the  *)
(* file named by the environment variable TRACE, one JSON object per line:   *)
(*   [ i |-> number, in |-> input, obs |-> what the real code did ]          *)
EXTENDS Json, IOUtils, TLC, Naturals, Sequences
Trace == ndJsonDeserialize(IOEnv.TRACE)
NCases == Len(Trace)
\* report a case whose observation the specification does not allow
Reject(k, expected) == PrintT("@REJECT@" \o ToJson([i |-> Trace[k].i, exp |-> expected]))
\* emit a generated input for replay into the real code
EmitInput(x) == PrintT("@INPUT@" \o ToJson(x))
=============================================================================
