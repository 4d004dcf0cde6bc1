----------------------------- MODULE FaultTrace -----------------------------
(***************************************************************************)
(* Recorded calculations with injected failures.  Every event is one call: *)
(*   op, fired     1: the injected failure was raised within the call      *)
(*   ok            1: the call returned                                    *)
(*   boom          1: the error that arrived is the injected one           *)
(*   vals          numbers of the reference results that the returned one  *)
(*                 equals                                                  *)
(*   run           names of objects that are still in running mode         *)
(*   reg, on       1: the engine in use is registered / entered as before  *)
(*   alt           inputs of the user that have changed                    *)
(***************************************************************************)
EXTENDS TraceRun, FaultOps

XInit(cfg) == [seq |-> 0, n |-> cfg.n]

XViol(s, e) ==
    LET o == Observed(s.seq, s.n, e.op, e.fired = 1) IN
    (IF e.fired = 1 /\ e.ok = 1 THEN {"a failed calculation returned a result: " \o e.op} ELSE {})
    \cup (IF e.fired = 1 /\ e.ok = 0 /\ e.boom = 0 THEN {"the original error did not arrive from " \o e.op \o ": " \o e.err} ELSE {})
    \cup (IF e.fired = 0 /\ e.ok = 0 THEN {"no failure, but an error from " \o e.op \o ": " \o e.err} ELSE {})
    \cup (IF o[1] /\ e.ok = 1 /\ (\A k \in 1..Len(e.vals) : e.vals[k] # o[2]) THEN {"wrong result of " \o e.op} ELSE {})
    \cup {"left in running mode: " \o e.run[k] : k \in 1..Len(e.run)}
    \cup (IF e.reg = 1 /\ e.on = 1 THEN {} ELSE {"the engine was lost by " \o e.op})
    \cup {"altered by " \o e.op \o ": " \o e.alt[k] : k \in 1..Len(e.alt)}

XApply(s, e) == [s EXCEPT !.seq = Observed(s.seq, s.n, e.op, e.ok = 0)[3]]
XEnd(s) == {}
=============================================================================
