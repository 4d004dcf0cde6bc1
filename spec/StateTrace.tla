----------------------------- MODULE StateTrace -----------------------------
(***************************************************************************)
(* Recorded runs over re-ordered, reduced, duplicated and selected states. *)
(* event run: how    "rows"  the inflow table was rebuilt from rows e.sel  *)
(*                   "iloc"  positions e.sel (from 0) were selected        *)
(*                   "loc"   the labels e.sel were selected                *)
(*            kind   "farm" or "points"                                    *)
(*            labels, cells (row x column value ids)                       *)
(***************************************************************************)
EXTENDS TraceRun

XInit(cfg) == [cfg |-> cfg, memo |-> <<>>, n |-> 0]

(* the base rows that the result has to consist of *)
Want(s, e) ==
    CASE e.how = "rows" -> [r \in DOMAIN e.sel |-> e.sel[r]]
      [] e.how = "iloc" -> [r \in DOMAIN e.sel |-> e.sel[r] + 1]
      [] e.how = "loc"  -> [r \in DOMAIN e.sel |-> CHOOSE k \in DOMAIN s.cfg.labels : s.cfg.labels[k] = e.sel[r]]

Cells(s, e) == {<<r, c>> : r \in DOMAIN Want(s, e), c \in 1..e.nc}
(* rows with the same inflow have the same class *)
Key(s, e, x) == <<e.kind, s.cfg.class[Want(s, e)[x[1]]], x[2]>>

XViol(s, e) ==
    IF e.ok = 0 THEN {e.kind \o " with " \o e.how \o " selection failed: " \o e.err}
    ELSE
    LET w == Want(s, e) IN
    IF Len(e.cells) # Len(w) \/ \E r \in DOMAIN e.cells : Len(e.cells[r]) # e.nc
    THEN {e.kind \o ", " \o e.how \o ": not exactly the selected states"}
    ELSE (IF e.how = "rows" \/ e.labels = [r \in DOMAIN w |-> s.cfg.labels[w[r]]] THEN {}
          ELSE {e.kind \o ", " \o e.how \o ": the labels are not those of the selected states"})
         \cup (IF e.how # "rows" \/ e.labels = e.want_labels THEN {} ELSE {e.kind \o ": the labels are not those of the table"})
         \cup (IF \A x \in Cells(s, e) : Key(s, e, x) \in DOMAIN s.memo => s.memo[Key(s, e, x)] = e.cells[x[1]][x[2]]
               THEN {} ELSE {e.kind \o ", " \o e.how \o ": a state's result depends on the other states"})

XApply(s, e) ==
    IF XViol(s, e) # {} THEN s
    ELSE [s EXCEPT
            !.n = @ + 1,
            !.memo = LET cs == Cells(s, e) IN
                     [k \in {Key(s, e, x) : x \in cs} |->
                        LET x == CHOOSE y \in cs : Key(s, e, y) = k IN e.cells[x[1]][x[2]]] @@ @]

XEnd(s) == IF s.n < 2 THEN {"nothing was compared"} ELSE {}
=============================================================================
