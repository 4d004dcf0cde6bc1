---------------------------- MODULE CausalTrace ----------------------------
(***************************************************************************)
(* Recorded calculations with probes for wakes.                            *)
(* cfg: pos (of the turbines), wind (per state), models, iterative (1/0),  *)
(*      amb (values of <<TI, RHO, WS>> without wakes)                      *)
(*   farm   s, val[v][t]: what state s gives for each turbine              *)
(*   points s, pts, val[v][p]                                              *)
(*   refused / failed: err                                                 *)
(***************************************************************************)
EXTENDS TraceRun, CausalOps

Vars == <<"TI", "RHO", "WS">>

XInit(cfg) == cfg

Mixed(c) == \E i, j \in DOMAIN c.models : c.models[i].dir # c.models[j].dir

Values(c, v, w) ==
    LET amb == c.amb[v] IN
    IF c.iterative = 1 THEN AtOnce(c.models, Vars[v], c.pos, w, amb)
    ELSE OneByOne(c.models, Vars[v], c.pos, w, [t \in DOMAIN c.pos |-> amb], 1)

Kind(c, v) == LET J == OfVar(c.models, Vars[v]) IN
    IF J = {} THEN "without wakes"
    ELSE (IF \E j \in J : c.models[j].kind = "chain" THEN "operating points" ELSE "wakes counted")
         \o (IF c.iterative = 1 THEN ", iterative" ELSE "")

XViol(c, e) ==
    CASE e.t = "failed" -> IF c.iterative = 0 /\ Mixed(c) /\ e.stage = "farm" THEN {} ELSE {"calculation failed: " \o e.err}
      [] e.t = "farm" ->
           IF c.iterative = 0 /\ Mixed(c) THEN {"mixed wake directions accepted"}
           ELSE {"farm, " \o Kind(c, v) : v \in {v \in 1..3 :
                  LET V == TLCEval(Values(c, v, c.wind[e.s])) IN \E t \in DOMAIN c.pos : e.val[v][t] # V[t]}}
                \cup (IF \A v \in 1..3 : \A t \in DOMAIN c.pos : e.amb[v][t] = c.amb[v] THEN {} ELSE {"ambient values carry wakes"})
      [] e.t = "points" ->
           {"points, " \o Kind(c, v) : v \in {v \in 1..3 :
                  LET w == c.wind[e.s]
                      V == TLCEval(Values(c, v, w))
                  IN  \E p \in DOMAIN e.pts : e.val[v][p] # c.amb[v] + Total(c.models, OfVar(c.models, Vars[v]), c.pos, w, e.pts[p], V)}}

XApply(c, e) == c
XEnd(c) == {}
=============================================================================
