----------------------------- MODULE EngineTrace -----------------------------
(***************************************************************************)
(* Recorded engine runs.  One trace is one scenario; the reference of each *)
(* kind of result is what the first (single-chunk) run gave.               *)
(*                                                                         *)
(* events                                                                  *)
(*   chunks  sizes_s, sizes_t, ns, nt    a splitting chosen by an engine   *)
(*   run     kind, eng, ok, err, labels, names, cells (state x column ids),*)
(*           spos/tpos (what a position probe wrote, -1 where absent)      *)
(*   map     n, out                     engine.map over 1..n               *)
(***************************************************************************)
EXTENDS TraceRun, Chunking

XInit(cfg) == [cfg |-> cfg, ref |-> <<>>, kinds |-> {}, n |-> 0]

Known(s, k) == k \in s.kinds
RefOf(s, k) == s.ref[CHOOSE n \in DOMAIN s.ref : s.ref[n].kind = k]

Rect(m, a, b) == Len(m) = a /\ \A r \in DOMAIN m : Len(m[r]) = b

XViol(s, e) ==
    CASE e.op = "chunks" ->
           (IF IsPartition(e.sizes_s, e.ns) THEN {} ELSE {"state chunks are no partition"})
           \cup (IF e.nt <= 1 \/ IsPartition(e.sizes_t, e.nt) THEN {} ELSE {"target chunks are no partition"})
      [] e.op = "map" ->
           IF e.ok = 1 /\ e.out = [k \in 1..e.n |-> k] THEN {}
           ELSE {"map over " \o ToString(e.n) \o " inputs with " \o e.eng \o ": wrong outputs or order " \o e.err}
      [] e.op = "run" ->
           IF e.ok = 0 THEN {e.kind \o " run failed with engine " \o e.eng \o ": " \o e.err}
           ELSE
           (IF Rect(e.cells, e.ns, e.nc) THEN {} ELSE {e.kind \o ": wrong result dimensions, " \o e.eng})
           \cup (IF e.ns = s.cfg.ns THEN {} ELSE {e.kind \o ": wrong number of states, " \o e.eng})
           \cup (IF e.labels = s.cfg.labels THEN {} ELSE {e.kind \o ": wrong state labels, " \o e.eng})
           \cup (IF e.kind = "points" \/ e.names = s.cfg.names THEN {} ELSE {e.kind \o ": wrong turbine names, " \o e.eng})
           \cup (IF \A k \in DOMAIN e.spos : \A c \in DOMAIN e.spos[k] : e.spos[k][c] = k - 1 THEN {}
                 ELSE {e.kind \o ": a model saw a wrong absolute state position, " \o e.eng})
           \cup (IF \A k \in DOMAIN e.tpos : \A c \in DOMAIN e.tpos[k] : e.tpos[k][c] = c - 1 THEN {}
                 ELSE {e.kind \o ": a model saw a wrong turbine position, " \o e.eng})
           \cup (IF ~Known(s, e.kind) THEN {}
                 ELSE LET r == RefOf(s, e.kind) IN
                      (IF r.vars = e.vars THEN {} ELSE {e.kind \o ": other result variables, " \o e.eng})
                      \cup (IF r.cells = e.cells THEN {} ELSE {e.kind \o ": values differ from the single-chunk run, " \o e.eng}))
      [] OTHER -> {"unknown event"}

XApply(s, e) ==
    IF e.op = "run" /\ e.ok = 1 /\ ~Known(s, e.kind)
    THEN [s EXCEPT !.ref = Append(@, [kind |-> e.kind, cells |-> e.cells, vars |-> e.vars]), !.kinds = @ \cup {e.kind}]
    ELSE [s EXCEPT !.n = @ + 1]

XEnd(s) == IF s.kinds = {} /\ s.n = 0 THEN {"nothing was observed"} ELSE {}
=============================================================================
