----------------------------- MODULE TraceBase -----------------------------
(* Common part of every trace specification: the recorded trace, the cursor *)
(* and the reporting of disagreements.  A trace specification consumes      *)
(* every event; a disagreement is printed with the event's line number and  *)
(* the violated clause, and validation goes on.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l                       \* next event

Chk(clause, cond) == IF cond THEN TRUE ELSE PrintT(<<"@@FAIL", l, clause>>)
ChkX(clause, cond, x) == IF cond THEN TRUE ELSE PrintT(<<"@@FAIL", l, clause, x>>)

More == l <= Len(Trace)
Ev == Trace[l]
Is(e) == More /\ Trace[l].e = e
Step == l' = l + 1

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumFrom(_, _)
SumFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumFrom(s, i + 1)
Sum(s) == SumFrom(s, 1)

NaNI == 2000000001               \* codes of special float values
InfI == 2000000002
Finite(x) == Abs(x) < 2000000000
=============================================================================
