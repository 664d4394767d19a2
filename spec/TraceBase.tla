------------------------------ MODULE TraceBase ------------------------------
(* Common part of the trace specifications: every recorded event is consumed, *)
(* `bad' collects the aspects in which the last event deviates from the       *)
(* specification.  A check looks at the aspects of its own property only.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)


If(c, name) == IF c THEN {} ELSE {name}
When(c, S) == IF c THEN S ELSE {}
Has(r, f) == f \in DOMAIN r
=============================================================================
