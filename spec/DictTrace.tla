----------------------------- MODULE DictTrace -----------------------------
(***************************************************************************)
(* Recorded sessions that run dictionaries or files.  Event "run":         *)
(*  fail     the step that has to fail ("none")                            *)
(*  sets     settings: in the dictionary, in the arguments, default, found *)
(*  hasfarm  farm results are asked for                                    *)
(*  calls, groups  the outputs: calls, number of the last call of each     *)
(*  log, outs      calls that were made, results handed back per output    *)
(*  res, want      ids of the results, by dictionary and by hand           *)
(*  engine, whole  engine left behind, dictionary unaltered                *)
(***************************************************************************)
EXTENDS TraceRun, DictOps

XInit(cfg) == [past |-> {}]

Early == {"states", "model", "points"}
Play_(e) == Outputs(e.calls, e.hasfarm)
Fails(e) == e.fail # "none" \/ Play_(e).ok = 0

(* every output keeps its place; those left out hand back nothing *)
OutsOk(e) ==
    LET G == Given(e.calls, e.hasfarm, e.groups)
        Left(g) == Len(G[g]) > 0 /\ e.calls[(G[g][1]) \div 10].needs = 1 /\ e.hasfarm = 0
    IN  /\ Len(e.outs) = Len(e.groups)
        /\ \A g \in DOMAIN e.groups : e.outs[g] = IF Left(g) THEN <<>> ELSE G[g]

XViol(s, e) ==
    (IF e.engine # 0 THEN {"the engine is not released"} ELSE {})
    \cup (IF e.whole # 1 THEN {"the dictionary is altered"} ELSE {})
    \cup (IF Fails(e) /\ e.ok = 1 THEN {"an invalid description is accepted: " \o e.fail} ELSE {})
    \cup (IF ~Fails(e) /\ e.ok = 0 THEN {"a valid description fails: " \o e.err} ELSE {})
    \cup (IF e.log # (IF e.fail \in Early THEN <<>> ELSE Play_(e).log) /\ (Fails(e) \/ e.ok = 1)
          THEN {"outputs do not run as listed"} ELSE {})
    \cup (IF e.ok = 1 /\ ~Fails(e)
          THEN UNION {IF e.sets[k].found = Setting(e.sets[k].dict, e.sets[k].arg, e.sets[k].default) THEN {}
                      ELSE {"a setting has no effect: " \o e.sets[k].name} : k \in DOMAIN e.sets}
               \cup (IF e.res = e.want THEN {} ELSE {"results differ from those composed by hand"})
               \cup (IF OutsOk(e) THEN {} ELSE {"results of outputs are not handed back"})
          ELSE {})
XApply(s, e) == s
XEnd(s) == {}
=============================================================================
