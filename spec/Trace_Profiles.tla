--------------------------- MODULE Trace_Profiles ---------------------------
EXTENDS Profiles
Next == Walk(Verdict)
=============================================================================
