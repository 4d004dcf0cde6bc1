----------------------------- MODULE RuleTrace -----------------------------
(***************************************************************************)
(* Recorded farm results of calculations with chains of rule models.       *)
(*   cfg.models  the models in order, with the selected cells               *)
(*   event run: cells[s][t] the variables found; init[s] the inflow        *)
(* ANY marks values that are not compared.                                 *)
(***************************************************************************)
EXTENDS TraceRun, RuleOps

XInit(cfg) == [cfg |-> cfg]

Start(e, s) == [v \in {e.vars[k] : k \in DOMAIN e.vars} |->
                  IF v \in DOMAIN e.init[s] THEN e.init[s][v] ELSE NONE]

Cell(st, e, s, t) ==
    LET x == RunCell(st.cfg.models, s, t, Start(e, s))  g == e.cells[s][t]
    IN  {v \in DOMAIN x : v # "WD" /\ v \notin DOMAIN e.skip /\ g[v] # x[v]}

Kind(st, v) == LET ms == {k \in DOMAIN st.cfg.models : v \in {st.cfg.models[k].outs[j] : j \in DOMAIN st.cfg.models[k].outs}}
               IN  IF ms = {} THEN "no model" ELSE LET k == CHOOSE k \in ms : \A j \in ms : j <= k IN st.cfg.models[k].kind

XViol(st, e) ==
    IF e.ok = 0 THEN {"calculation failed: " \o e.err}
    ELSE IF e.t = "count" THEN (IF e.got = e.want THEN {} ELSE {"a rule was applied more than once, " \o e.how})
    ELSE {"variable " \o v \o " is not what the rules give, last written by " \o Kind(st, v) :
             v \in UNION {Cell(st, e, s, t) : s \in DOMAIN e.cells, t \in 1..Len(e.cells[1])}}

XApply(s, e) == s
XEnd(s) == {}
=============================================================================
