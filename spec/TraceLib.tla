----------------------------- MODULE TraceLib -----------------------------
(* Shared skeleton of the trace specifications: the recorded events of the  *)
(* implementation are read from $TRACE (ndjson), verdicts are total and     *)
(* name the failing clause; nothing a trace contains is an error of TLC.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* v = "ok" or the name of the violated clause *)
Verdict(e, v) == IF v = "ok" THEN TRUE
                 ELSE PrintT("FAIL|" \o ToString(e.sc) \o "|" \o e.ev \o "|" \o v)
First(e, f) == f \in DOMAIN e
===========================================================================
