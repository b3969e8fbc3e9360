------------------------------ MODULE TraceKit ------------------------------
(* Shared frame of all trace specifications.  A trace is a sequence of       *)
(* recorded events of the real library.  It is cut in Chunks pieces that the *)
(* TLC workers walk in parallel, one event per step.  Every step is total:   *)
(* an event that the specification does not explain is reported (BAD) and    *)
(* the walk goes on, so that the rest of the trace is judged as well.        *)
EXTENDS Flt, TLC, Sequences, FiniteSets, SequencesExt, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NEvents == Len(Trace)
Chunks == 24
ChunkLen == (NEvents + Chunks - 1) \div Chunks

(* Values: the recorder tags every result with its kind. *)
NumV(x)  == [k |-> "num", v |-> x]
SeqV(s)  == [k |-> "seq", v |-> s]      \* sequence of numbers
BoolV(b) == [k |-> "bool", v |-> b]
StrV(s)  == [k |-> "str", v |-> s]
NoneV    == [k |-> "none"]
RecV(r)  == [k |-> "rec", v |-> r]      \* record of numbers
ErrV(s)  == [k |-> "err", v |-> s]      \* exception of that class
AnyV     == [k |-> "any"]

RTOL == "1e-9"
SameNum(a, b) == \/ Close(a, b, RTOL, "1e-300")
                 \/ (~Eq(a, a) /\ ~Eq(b, b))
NumTol(a, b, rt, at) == Close(a, b, rt, at) \/ (~Eq(a, a) /\ ~Eq(b, b))
MatchTol(x, o, rt, at) ==
  \/ x.k = "any"
  \/ /\ x.k = o.k
     /\ CASE x.k = "num"  -> NumTol(x.v, o.v, rt, at)
          [] x.k = "seq"  -> /\ Len(x.v) = Len(o.v)
                             /\ \A i \in 1..Len(x.v) : NumTol(x.v[i], o.v[i], rt, at)
          [] x.k = "rec"  -> /\ DOMAIN x.v = DOMAIN o.v
                             /\ \A f \in DOMAIN x.v : NumTol(x.v[f], o.v[f], rt, at)
          [] x.k = "none" -> TRUE
          [] OTHER        -> x.v = o.v
Match(x, o) == MatchTol(x, o, RTOL, "1e-300")

(* arguments of an event; D takes the documented default if it was omitted *)
D(e, n, d) == IF n \in DOMAIN e.a THEN e.a[n] ELSE d
Has(e, n)  == n \in DOMAIN e.a

(* The walk.  A trace module ends with  Next == Walk(Verdict)  where         *)
(* Verdict(e) is the set of clauses of the specification that e breaks.      *)
VARIABLES pos, last
MinI(a, b) == IF a < b THEN a ELSE b
Init == \E c \in 0..(Chunks - 1) :
              /\ pos = c * ChunkLen + 1
              /\ last = MinI(NEvents, (c + 1) * ChunkLen)
              /\ pos <= last
Walk(V(_)) == /\ pos <= last
              /\ LET v == V(Trace[pos])
                 IN  IF v = {} THEN TRUE
                     ELSE PrintT("@BAD|" \o ToString(pos) \o "|" \o ToString(v))
              /\ pos' = pos + 1
              /\ UNCHANGED last
=============================================================================
