----------------------------- MODULE PointTrace -----------------------------
(***************************************************************************)
(* Point results are a function of (state, coordinate).                    *)
(*                                                                         *)
(* event eval: sts  the full-run states the rows belong to                 *)
(*             pids coordinate ids, state x point                          *)
(*             cells value ids, state x point;  amb: 1 ambient run         *)
(*             labels state labels of the rows                             *)
(***************************************************************************)
EXTENDS TraceRun

XInit(cfg) == [cfg |-> cfg, memo |-> <<>>, n |-> 0]

Cells(e) == {<<r, c>> : r \in DOMAIN e.sts, c \in 1..e.np}
Key(e, r, c) == <<e.kind, e.sts[r], e.pids[r][c]>>

Shape(e) == /\ Len(e.cells) = Len(e.sts)
            /\ \A r \in DOMAIN e.cells : Len(e.cells[r]) = e.np

XViol(s, e) ==
    IF e.ok = 0 THEN {"evaluation failed (" \o e.eng \o "): " \o e.err}
    ELSE IF ~Shape(e) THEN {"not one value per state and point, " \o e.eng}
    ELSE
    (IF e.labels = [r \in DOMAIN e.sts |-> s.cfg.labels[e.sts[r]]] THEN {} ELSE {"wrong state labels, " \o e.eng})
    \cup (IF \A x \in Cells(e) : LET k == Key(e, x[1], x[2]) IN
              k \in DOMAIN s.memo => s.memo[k] = e.cells[x[1]][x[2]]
          THEN {} ELSE {e.kind \o ": value at a point depends on chunking, engine or other points, " \o e.eng})
    \cup (IF \A x, y \in Cells(e) : Key(e, x[1], x[2]) = Key(e, y[1], y[2]) => e.cells[x[1]][x[2]] = e.cells[y[1]][y[2]]
          THEN {} ELSE {e.kind \o ": equal points with different values in one call, " \o e.eng})

XApply(s, e) ==
    IF e.ok = 0 \/ ~Shape(e) THEN s
    ELSE [s EXCEPT
            !.n = @ + 1,
            !.memo = [k \in {Key(e, x[1], x[2]) : x \in Cells(e)} |->
                        LET x == CHOOSE y \in Cells(e) : Key(e, y[1], y[2]) = k IN e.cells[x[1]][x[2]]] @@ @]

XEnd(s) == IF s.n < 2 THEN {"nothing was compared"} ELSE {}
=============================================================================
