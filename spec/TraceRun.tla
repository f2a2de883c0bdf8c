------------------------------ MODULE TraceRun ------------------------------
(* Runs a recorded trace through a specification given as a step function.   *)
(* A trace is accepted when every line has been consumed without a deviation *)
(* that contradicts a property in Focus.  After a deviation that contradicts *)
(* only other properties the rest of that scenario is skipped.               *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Focus == TLCEval(LET s == ndJsonDeserialize(IOEnv.FOCUS) IN {s[1].focus[i] : i \in 1..Len(s[1].focus)})

Relevant(bad) == {b \in bad : b.p \cap Focus # {}}
=============================================================================
