------------------------------ MODULE AlgoTrace ------------------------------
(***************************************************************************)
(* Replayed histories of one algorithm object (AlgoLife) against the real  *)
(* code.  The results of newly created objects come first (op "fresh").    *)
(*                                                                         *)
(* event: op, kind (what was calculated, "" if nothing), inflow (used by   *)
(*        fresh), ok, err, res (id of the whole result table, 0 if none)   *)
(*        open   things that were accessible during the run                *)
(*        closed things that are not accessible afterwards                 *)
(*        mut    objects of the user that were altered                     *)
(***************************************************************************)
EXTENDS TraceRun

XInit(cfg) == [n |-> cfg.ninflow, cur |-> 1, have |-> {}, memo |-> <<>>, seen |-> 0, spied |-> FALSE]

Allowed(s, e) ==
    CASE e.op \in {"points", "pointskeep", "pointsamb"} -> s.cur \in s.have
      [] OTHER -> TRUE

Key(s, e) == IF e.op = "fresh" THEN <<e.kind, e.inflow>> ELSE <<e.kind, s.cur>>

XViol(s, e) ==
    (IF Allowed(s, e) THEN {} ELSE {"the harness replayed an impossible call " \o e.op})
    \cup (IF e.ok = 1 THEN {} ELSE {e.op \o " failed: " \o e.err})
    \cup (IF e.ok = 0 \/ e.kind = "" THEN {}
          ELSE IF Key(s, e) \in DOMAIN s.memo
               THEN IF s.memo[Key(s, e)] = e.res THEN {} ELSE {e.op \o ": result differs from that of a new object"}
               ELSE IF e.op = "fresh" THEN {} ELSE {"no reference for " \o e.kind})
    \cup {"accessible while running: " \o e.open[k] : k \in DOMAIN e.open}
    \cup {"not available after " \o e.op \o ": " \o e.closed[k] : k \in DOMAIN e.closed}
    \cup {e.op \o " altered the user's " \o e.mut[k] : k \in DOMAIN e.mut}

XApply(s, e) ==
    [s EXCEPT
        !.memo = IF e.op = "fresh" /\ e.ok = 1 THEN Key(s, e) :> e.res @@ @ ELSE @,
        !.cur = IF e.op = "inflow" THEN (@ % s.n) + 1 ELSE @,
        !.have = IF e.op \in {"farm", "farmkeep"} THEN @ \cup {s.cur} ELSE @,
        !.seen = IF e.op # "fresh" /\ e.kind # "" THEN @ + 1 ELSE @,
        !.spied = @ \/ e.spied = 1]

XEnd(s) == IF s.seen > 0 /\ ~s.spied THEN {"access during the run was not observed"} ELSE {}
=============================================================================
