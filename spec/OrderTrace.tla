----------------------------- MODULE OrderTrace -----------------------------
(***************************************************************************)
(* Recorded runs of one farm, listed in different orders.                  *)
(* cfg:   n turbines, frame (1: the order has to be sorted along the wind) *)
(* event: kind "farm": perm (turbine of each column), names, col           *)
(*             cells[s][c] value ids, along[s][c] coordinate along the     *)
(*             wind (integer mm), order, inv (0-based, per state), tpos    *)
(*             the list position written by a model, own[c] id of the      *)
(*             turbine's own data as reported                              *)
(*        kind "points": cells[s][p]                                       *)
(***************************************************************************)
EXTENDS TraceRun

XInit(cfg) == [cfg |-> cfg, memo |-> <<>>, n |-> 0, moved |-> FALSE]

Name(k) == "T" \o ToString(k)

IsPerm(o, n) == Len(o) = n /\ {o[i] : i \in DOMAIN o} = 0..n - 1
Key(e, s, c) == IF e.kind = "farm" THEN <<"f", s, e.perm[c]>> ELSE <<"p", s, c>>

OrderViol(s, e) ==
    LET n == s.cfg.n IN
    UNION {
        IF ~IsPerm(e.order[k], n) THEN {"the order is not a permutation"}
        ELSE (IF IsPerm(e.inv[k], n) /\ \A i \in 1..n : e.inv[k][e.order[k][i] + 1] = i - 1 THEN {}
              ELSE {"the inverse order does not invert the order"})
             \cup (IF s.cfg.sorted = 0 \/ \A i \in 1..n - 1 : e.along[k][e.order[k][i] + 1] <= e.along[k][e.order[k][i + 1] + 1] + 1 THEN {}
                   ELSE {"the order is not sorted from upstream to downstream"})
        : k \in DOMAIN e.order}

XViol(s, e) ==
    IF e.ok = 0 THEN {e.kind \o " failed: " \o e.err}
    ELSE IF e.kind = "farm" THEN
         (IF e.names = [c \in 1..s.cfg.n |-> Name(e.perm[c])] THEN {} ELSE {"columns do not carry the names of the listed turbines"})
         \cup (IF \A k \in DOMAIN e.tpos : e.tpos[k] = [c \in 1..s.cfg.n |-> c - 1] THEN {}
               ELSE {"the position of the turbines in the list is not that of the column"})
         \cup (IF \A c \in 1..s.cfg.n : e.own[c] = s.cfg.own[e.perm[c] + 1] THEN {}
               ELSE {"a turbine does not keep its own position, size or data"})
         \cup OrderViol(s, e)
         \cup (IF \A k \in DOMAIN e.cells : \A c \in 1..s.cfg.n :
                  Key(e, k, c) \in DOMAIN s.memo => s.memo[Key(e, k, c)] = e.cells[k][c] THEN {}
               ELSE {"a turbine's results depend on the order of the list"})
    ELSE IF \A k \in DOMAIN e.cells : \A c \in DOMAIN e.cells[k] :
             Key(e, k, c) \in DOMAIN s.memo => s.memo[Key(e, k, c)] = e.cells[k][c] THEN {}
         ELSE {"results at points depend on the order of the list"}

XApply(s, e) ==
    IF e.ok = 0 THEN s
    ELSE [s EXCEPT !.n = @ + 1,
                   !.moved = @ \/ (e.kind = "farm" /\ \E c \in 1..s.cfg.n : e.perm[c] # c - 1),
                   !.memo = @ @@ [x \in {Key(e, k, c) : k \in DOMAIN e.cells, c \in DOMAIN e.cells[1]} |->
                                    LET p == CHOOSE q \in (DOMAIN e.cells) \X (DOMAIN e.cells[1]) : Key(e, q[1], q[2]) = x
                                    IN  e.cells[p[1]][p[2]]]]

XEnd(s) == IF s.n < 2 \/ ~s.moved THEN {"nothing was compared"} ELSE {}
=============================================================================
