----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* What all trace specifications share: the recorded trace (ndjson, one     *)
(* event per line), named clauses, and their report.  A trace verdict is    *)
(* total: every event is judged, and each clause it breaks is named.        *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Chk(name, ok) == IF ok THEN {} ELSE {name}
\* Chk2: the clause is only evaluated if the guard holds
Chk2(guard, name, ok) == IF guard THEN Chk(name, ok) ELSE {}

Report(l, f) == IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", l, f>>)

RTOL == "1e-8"
ATOL == "1e-12"
Near(a, b)  == RClose(a, b, RTOL, ATOL)
NearS(s, t) == Len(s) = Len(t) /\ AllN(Len(s), LAMBDA i : Near(s[i], t[i]))
NearT(s, t, rtol, atol) ==
    Len(s) = Len(t) /\ AllN(Len(s), LAMBDA i : RClose(s[i], t[i], rtol, atol))
Gravity == R("9.80665")

Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=============================================================================
