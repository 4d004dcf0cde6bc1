--------------------------- MODULE SequentialTrace --------------------------
(***************************************************************************)
(* Recorded stepping through states.  cfg: n states, rows[s] value ids of  *)
(* the turbines in the batch calculation, prows[s] those of the points     *)
(* (<<>> if the run has no points), labels ids of the state labels.        *)
(* event: op; on, pos (-1 none), label (0 none), size  as reported after   *)
(*   the operation; stop 1 if a step ended the iteration;                  *)
(*   res, pres  ids delivered by the operation (rows of a step, of the     *)
(*   current state, of an evaluation at points); acc, pacc accumulated     *)
(*   rows; dwnd accumulated rows in downwind order, order[s] (0-based);    *)
(*   names labels of the accumulated rows; plug calls [k, row, prow] of    *)
(*   a plug-in during the operation (k: 0 start, 1 update, 2 end)          *)
(***************************************************************************)
EXTENDS TraceRun

XInit(cfg) == [cfg |-> cfg, on |-> FALSE, done |-> 0, ever |-> FALSE, full |-> 0]

Expect(s, e) ==
    IF e.op = "iter" THEN [s EXCEPT !.on = TRUE, !.ever = TRUE, !.done = IF s.on THEN @ ELSE 0]
    ELSE IF e.op = "next" THEN IF s.done < s.cfg.n THEN [s EXCEPT !.done = @ + 1] ELSE [s EXCEPT !.on = FALSE, !.full = @ + 1]
    ELSE s

Calls(s, e) ==
    IF e.op = "iter" /\ ~s.on THEN <<[k |-> 0, row |-> <<>>, prow |-> <<>>]>>
    ELSE IF e.op = "next" THEN
        IF s.done < s.cfg.n THEN <<[k |-> 1, row |-> s.cfg.rows[s.done + 1], prow |-> IF s.cfg.prows = <<>> THEN <<>> ELSE s.cfg.prows[s.done + 1]]>>
        ELSE <<[k |-> 2, row |-> <<>>, prow |-> <<>>]>>
    ELSE <<>>

XViol(s, e) ==
    IF e.ok = 0 THEN {e.op \o " failed: " \o e.err}
    ELSE
    LET n == Expect(s, e)
        c == s.cfg
        step == e.op = "next" /\ s.done < c.n
    IN  (IF e.op = "next" /\ e.stop # (IF step THEN 0 ELSE 1) THEN {"the iteration does not visit every state exactly once"} ELSE {})
        \cup (IF e.on # (IF n.on THEN 1 ELSE 0) THEN {"it is not reported correctly whether an iteration is running"} ELSE {})
        \cup (IF n.on /\ n.done > 0 /\ (e.pos # n.done - 1 \/ e.label # c.labels[n.done]) THEN {"position or label of the current state are wrong"} ELSE {})
        \cup (IF ~n.on /\ (e.pos # -1 \/ e.label # 0) THEN {"a position is reported while no iteration is running"} ELSE {})
        \cup (IF e.plug # Calls(s, e) THEN {"plug-ins are not told of each step exactly once"} ELSE {})
        \cup (IF step /\ e.res # c.rows[n.done] THEN {"the results of a step are not those of the batch calculation"} ELSE {})
        \cup (IF step /\ c.prows # <<>> /\ e.pres # c.prows[n.done] THEN {"the point results of a step are not those of the batch calculation"} ELSE {})
        \cup (IF e.op = "read" /\ n.on /\ n.done > 0 /\ (e.res # c.rows[n.done] \/ (c.prows # <<>> /\ e.pres # c.prows[n.done]))
              THEN {"the current results are not those of the current state"} ELSE {})
        \cup (IF e.op = "points" /\ e.pres # (IF c.prows = <<>> THEN c.fprows[n.done] ELSE c.prows[n.done])
              THEN {"points evaluated during a step differ from the batch calculation"} ELSE {})
        \cup (IF n.ever /\ e.size # c.n THEN {"the number of steps is not the number of states"} ELSE {})
        \cup (IF n.ever /\ (e.names # c.labels \/ \E k \in 1..n.done : e.acc[k] # c.rows[k]) THEN {"the accumulated results differ from the batch calculation"} ELSE {})
        \cup (IF n.ever /\ n.done > 0 /\ c.prows # <<>> /\ \E k \in 1..n.done : e.pacc[k] # c.prows[k]
              THEN {"the accumulated point results differ from the batch calculation"} ELSE {})
        \cup (IF n.ever /\ \E k \in 1..n.done : \E i \in DOMAIN e.order[k] : e.dwnd[k][i] # c.rows[k][e.order[k][i] + 1]
              THEN {"the accumulated results in downwind order are wrong"} ELSE {})

XApply(s, e) == IF e.ok = 0 THEN s ELSE Expect(s, e)
XEnd(s) == IF ~s.ever THEN {"nothing was iterated"} ELSE {}
=============================================================================
