--------------------------- MODULE Trace_Geometry ---------------------------
(* Operations on geometries recorded from the library, each with what it was *)
(* given (before and after) and what it made.                                *)
EXTENDS Geometry
Next == Walk(Verdict)
=============================================================================
