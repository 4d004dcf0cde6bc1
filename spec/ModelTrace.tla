----------------------------- MODULE ModelTrace -----------------------------
(***************************************************************************)
(* Recorded calculations in which every turbine model leaves a mark.       *)
(* cfg: lists (of the turbines, see ModelOps), keep (marks that are kept)  *)
(*   refused  err                                                          *)
(*   result   state s: marks[p][t], the marks before (1) and after (2) the *)
(*            rotor; seen[p][t]: 1 if the rotor results were there         *)
(***************************************************************************)
EXTENDS TraceRun, ModelOps

XInit(cfg) == cfg

Codes(c, t, p, s) == LET a == Acting(c.lists[t], IF p = 1 THEN 1 ELSE 0, s)
                         b == SelectSeq(a, LAMBDA x : x.m.type = 0)
                     IN  [k \in DOMAIN b |-> b[k].m.code]
StageName(p) == IF p = 1 THEN "before the rotor" ELSE "after the rotor"

Sorted(h, w) == \A x \in Range(h) \cup Range(w) :
    (Cardinality({i \in DOMAIN h : h[i] = x}) * Len(w)) = (Cardinality({i \in DOMAIN w : w[i] = x}) * Len(h))

Result(c, e) ==
    UNION {UNION {LET w == TLCEval(Codes(c, t, p, e.s))  h == e.marks[p][t] IN
        IF Repeats(h, w, c.keep) THEN {}
        ELSE IF Range(h) # Range(w) THEN {"wrong models " \o StageName(p) \o c.what}
        ELSE {"wrong order or number of models " \o StageName(p) \o c.what}
      : t \in DOMAIN c.lists} : p \in 1..2}
    \cup (IF \A t \in DOMAIN c.lists : e.seen[1][t] # 1 /\ e.seen[2][t] # 0 THEN {} ELSE {"models on the wrong side of the rotor"})

XViol(c, e) ==
    CASE e.t = "refused" -> IF MustAccept(c.lists) THEN {"refused: " \o e.err} ELSE {}
      [] e.t = "result" -> IF MustRefuse(c.lists) THEN {"models accepted that cannot be combined"} ELSE Result(c, e)

XApply(c, e) == c
XEnd(c) == {}
=============================================================================
