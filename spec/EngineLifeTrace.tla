-------------------------- MODULE EngineLifeTrace --------------------------
(***************************************************************************)
(* Recorded use of engines.  After every action:                           *)
(*   ok       accepted (1) or an error was raised (0)                      *)
(*   boom     1: the error is the one raised by the model (or the body)    *)
(*   reg      registered engine; n engines that exist; has: has_engine()   *)
(*   on       engines that say they are entered; up: initialised           *)
(*   res      result of a calculation or map as expected                   *)
(*   kind     kind of the registered engine                                *)
(***************************************************************************)
EXTENDS TraceRun, EngineOps

XInit(cfg) == [reg |-> 0, n |-> cfg.n]

XViol(s, e) ==
    LET o == Outcome(s, e.a, e.k) IN
    (IF e.ok = (IF o[1] THEN 1 ELSE 0) THEN {}
     ELSE {(IF o[1] THEN "refused: " ELSE "not refused: ") \o e.a \o (IF o[1] THEN ", " \o e.err ELSE "")})
    \cup (IF e.a \in {"fail", "withfail"} /\ e.ok = 0 /\ e.boom = 0 /\ (e.a = "fail" \/ s.reg = 0) THEN {"the original error did not arrive: " \o e.err} ELSE {})
    \cup (IF e.reg = o[2] THEN {} ELSE {IF o[2] = 0 THEN "registration not cleared by " \o e.a
                                      ELSE IF e.reg = 0 THEN "registration lost by " \o e.a
                                      ELSE "wrong engine registered after " \o e.a})
    \cup (IF e.has = (IF e.reg = 0 THEN 0 ELSE 1) THEN {} ELSE {"has_engine is wrong"})
    \cup (IF e.on = (IF e.reg = 0 THEN <<>> ELSE <<e.reg>>) /\ e.up = e.on THEN {} ELSE {"an engine that is not registered is entered or initialised after " \o e.a})
    \cup (IF e.res = 1 THEN {} ELSE {"wrong result of " \o e.a})

XApply(s, e) == [reg |-> e.reg, n |-> e.n]
XEnd(s) == {}
=============================================================================
