------------------------------ MODULE IterTrace -----------------------------
(***************************************************************************)
(* Recorded iterative calculations.                                        *)
(* cfg:   maxit, crits (see IterOps), auto 1 if a criterion is in use,     *)
(*        slack rounding of the scaled values, names                       *)
(*        rel[v] relaxation of variable v in quarters                      *)
(* event "pass":  it number reported by the algorithm, final 1 for the run *)
(*        that restores the order, blocked 1 if some chunk blocked, vals   *)
(*        [v][s][position], raw[v][s][position] the values before          *)
(*        relaxation (<<>> if not known)                                   *)
(* event "result": vals [v][s][turbine], order[s], names                   *)
(* event "compare": a single-pass calculation of the same: ids[s][t] and   *)
(*        mine[s][t]; low[s] 1 where turbines come close to cut-in         *)
(***************************************************************************)
EXTENDS TraceRun, IterOps

XInit(cfg) == [cfg |-> cfg, n |-> 0, prev |-> <<>>, cur |-> <<>>, blk |-> 0, final |-> FALSE, sure |-> FALSE, maybe |-> FALSE, res |-> 0, cmp |-> 0]

Sure(s, e) == s.cfg.auto = 1 /\ s.n > 0 /\ e.blocked = 0 /\ Agree(s.cur, e.vals, s.cfg.crits, -s.cfg.slack)
Maybe(s, e) == s.cfg.auto = 1 /\ s.n > 0 /\ e.blocked = 0 /\ Agree(s.cur, e.vals, s.cfg.crits, s.cfg.slack)

PassViol(s, e) ==
    (IF s.final THEN {"passes follow the final run"} ELSE {})
    \cup (IF e.it # s.n THEN {"passes are not numbered"} ELSE {})
    \cup (IF s.n > s.cfg.maxit THEN {"the iteration limit is exceeded"} ELSE {})
    \cup (IF s.sure THEN {"the iteration goes on although results agree within the limits"} ELSE {})
    \cup (IF e.raw # <<>> /\ \E v \in DOMAIN e.raw : \E k \in DOMAIN e.raw[v] : \E p \in DOMAIN e.raw[v][k] :
             ~RelaxedOk(IF s.n = 0 THEN e.raw[v][k][p] ELSE s.cur[v][k][p], e.raw[v][k][p], e.vals[v][k][p],
                        IF s.n = 0 THEN 0 ELSE s.cfg.rel[v], s.cfg.slack)
          THEN {"under-relaxed values are not the weighted mean of previous and new ones"} ELSE {})

FinalViol(s, e) ==
    (IF s.n <= s.cfg.maxit /\ ~s.maybe THEN
        {IF s.blk = 1 THEN "the iteration stops while convergence is blocked"
         ELSE IF s.cfg.auto = 0 THEN "the iteration stops before the limit although no criterion is set"
         ELSE "the iteration stops although results differ by more than the limits"} ELSE {})

XViol(s, e) ==
    IF e.ok = 0 THEN {e.op \o " failed: " \o e.err}
    ELSE IF e.op = "pass" THEN IF e.final = 1 THEN FinalViol(s, e) ELSE PassViol(s, e)
    ELSE IF e.op = "result" THEN
        (IF e.names # s.cfg.names THEN {"results are not in the order of the farm"} ELSE {})
        \cup (IF \A v \in DOMAIN e.vals : \A k \in DOMAIN e.order : \A p \in DOMAIN e.order[k] :
                 e.vals[v][k][e.order[k][p] + 1] = s.cur[v][k][p] THEN {}
              ELSE {"results are not those of the last pass in the order of the farm"})
    ELSE IF \A k \in DOMAIN e.ids : e.low[k] = 1 \/ e.ids[k] = e.mine[k] THEN {}
         ELSE {"iterative and single-pass results differ"}

XApply(s, e) ==
    IF e.ok = 0 THEN s
    ELSE IF e.op = "pass" THEN
        IF e.final = 1 THEN [s EXCEPT !.final = TRUE]
        ELSE [s EXCEPT !.n = @ + 1, !.prev = s.cur, !.cur = e.vals, !.blk = e.blocked, !.sure = Sure(s, e), !.maybe = Maybe(s, e)]
    ELSE IF e.op = "result" THEN [s EXCEPT !.res = @ + 1]
    ELSE [s EXCEPT !.cmp = @ + 1]
XEnd(s) == IF s.n = 0 \/ (s.res = 0 /\ s.cmp = 0) THEN {"nothing was recorded"} ELSE {}
=============================================================================
