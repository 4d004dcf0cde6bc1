----------------------------- MODULE ChunkTrace -----------------------------
(***************************************************************************)
(* Recorded use of chunk data and of the chunk store.                      *)
(* event "make":  an object of kind "mdata", "fdata", "tdata" made from    *)
(*        the entries given; has: all its entries; at its state position   *)
(* event "cut":   object src cut by sel[d] (a record of dimensions), dimen-*)
(*        sions renamed by map; has, at: the outcome                       *)
(* event "load":  chunk data made from a data set: given its variables and *)
(*        coordinates, rows <<lo, hi>>, targets <<lo, hi>>; has            *)
(* event "same":  before = after, for data that must be independent        *)
(* event "add":   a further entry name, dims, shp to object src; took 1 if *)
(*        it was accepted                                                  *)
(* event "put", "ask", "reset": the chunk store, chunk [i, n, t, m]; name, *)
(*        back 1 for a reset to the store of before the last reset;         *)
(*        val; quiet 1 if nothing found is no error; got the value found,  *)
(*        0 if none, -1 an error; inds its position or <<>>                *)
(* event "block", "blocked": convergence blocked by a chunk; asked         *)
(* event "run":   rows of a calculation: start[s] and size[s] of the chunk *)
(*        of state s, found[k][s] the start of the k-th chunk before it as *)
(*        looked up in the store, -1 if none, pass[k][s] the iteration of  *)
(*        which it was; it the iteration                                   *)
(***************************************************************************)
EXTENDS TraceRun, ChunkOps

XInit(cfg) == [cfg |-> cfg, objs |-> <<>>, store |-> {}, vals |-> <<>>, blocked |-> FALSE, kept |-> [store |-> {}, vals |-> <<>>, blocked |-> FALSE], n |-> 0]

Coords == {"state", "turbine", "target", "tpoint", "xyh"}

\* entries given are there unchanged, dimensions without an entry are counted
MakeViol(given, has) ==
    (IF \E i \in DOMAIN given : given[i].name \notin Names(has) THEN {"an entry is missing"} ELSE {})
    \cup (IF \E i \in DOMAIN given : given[i].name \in Names(has) /\
               (LET h == Entry(has, given[i].name) IN h.dims # given[i].dims \/ h.arr # given[i].arr)
          THEN {"an entry differs"} ELSE {})
    \cup (IF \E i \in DOMAIN has : has[i].name \notin Names(given) /\ has[i].name # "txyh" /\
               ~(Len(has[i].dims) = 1 /\ has[i].dims[1] = has[i].name /\ has[i].arr = [k \in 1..Len(has[i].arr) |-> k - 1])
          THEN {"there is an entry that was not given"} ELSE {})

ObjSize(o, d) == SizeOf(o.has, d)

CutViol(s, e) ==
    LET o == s.objs[e.src]
        pick == [d \in DOMAIN e.sel |-> [n |-> ObjSize(o, d), p |-> Picks(e.sel[d], ObjSize(o, d))]]
        sts == IF "state" \in DOMAIN pick THEN pick["state"].p ELSE <<0>>
        ren(d) == IF d \in DOMAIN e.map THEN e.map[d] ELSE d
    IN  IF e.ok = 0 THEN (IF o.at # -1 /\ ~Contiguous(sts) THEN {} ELSE {"cutting failed: " \o e.err})
        ELSE (IF \E i \in DOMAIN o.has : o.has[i].name \notin Names(e.has) THEN {"an entry was lost by cutting"} ELSE {})
             \cup (IF \E i \in DOMAIN o.has : o.has[i].name \in Names(e.has) /\
                        (LET h == Entry(e.has, o.has[i].name)
                         IN  h.dims # [k \in DOMAIN o.has[i].dims |-> ren(o.has[i].dims[k])] \/ h.arr # Cut(o.has[i].dims, o.has[i].arr, pick))
                   THEN {"a cut entry does not hold the selected part"} ELSE {})
             \cup (IF o.at # -1 /\ Contiguous(sts) /\ e.at # o.at + sts[1]
                   THEN {"the position of the states was lost"} ELSE {})
             \cup (IF o.at # -1 /\ ~Contiguous(sts) THEN {"scattered states were given a position"} ELSE {})

LoadViol(s, e) ==
    LET pick == [d \in {"state", "target"} |-> [n |-> 0, p |-> IF d = "state" THEN [k \in 1..(e.rows[2] - e.rows[1]) |-> e.rows[1] + k - 1]
                                                              ELSE [k \in 1..(e.targets[2] - e.targets[1]) |-> e.targets[1] + k - 1]]]
        want == [i \in DOMAIN e.given |-> [name |-> e.given[i].name, dims |-> e.given[i].dims,
                                           arr |-> Cut(e.given[i].dims, e.given[i].arr, pick)]]
    IN  IF e.ok = 0 THEN {"chunk data failed: " \o e.err}
        ELSE (IF \E i \in DOMAIN want : ~(want[i].name \in Names(e.has)) THEN {"a variable is missing in the chunk"} ELSE {})
             \cup (IF \E i \in DOMAIN want : want[i].name \in Names(e.has) /\
                        (LET h == Entry(e.has, want[i].name)
                         IN  IF want[i].name = "weight" /\ want[i].dims = <<"state">>
                             THEN h.dims # <<"state", "turbine">> \/ h.arr # [k \in DOMAIN want[i].arr |-> <<want[i].arr[k]>>]
                             ELSE h.dims # want[i].dims \/ h.arr # want[i].arr)
                   THEN {"the chunk does not hold the requested rows"} ELSE {})
             \cup (IF "state" \notin Names(want) /\ "state" \in Names(e.has) /\ e.states # <<>> /\
                        Entry(e.has, "state").arr # e.states
                   THEN {"the states of the chunk are numbered differently"} ELSE {})
             \cup (IF e.at # e.rows[1] THEN {"the position of the chunk is wrong"} ELSE {})
             \cup (IF e.kind = "tdata" /\ e.tat # e.targets[1] THEN {"the target position of the chunk is wrong"} ELSE {})

AddViol(s, e) ==
    LET o == s.objs[e.src]
        sizes == [d \in { e.dims[k] : k \in DOMAIN e.dims } |-> SizeOf(o.has, d)]
        lead == IF o.kind = "fdata" THEN <<"state", "turbine">> ELSE IF o.kind = "tdata" THEN <<"state", "target", "tpoint">> ELSE <<>>
        fits == Fits(o.kind, e.name, e.dims, e.shp, sizes, lead, Coords)
    IN  IF e.took = 1 /\ ~fits THEN {"an entry that does not fit was accepted"}
        ELSE IF e.took = 0 /\ fits THEN {"an entry that fits was refused"} ELSE {}

Key(e) == <<e.i, e.t, e.name>>
Val(s, k) == LET x == { j \in DOMAIN s.vals : s.vals[j][1] = k } IN IF x = {} THEN 0 ELSE s.vals[CHOOSE j \in x : \A l \in x : j >= l][2]

AskViol(s, e) ==
    LET all == Found(s.store, e.i, e.t, e.ps, e.pt)
        vs == { Val(s, <<p[1], p[2], e.name>>) : p \in all } \ {0}
        nothing == vs = {}
    IN  IF e.got > 0 THEN
            (IF e.got \notin vs THEN {"something else was found"} ELSE {})
            \cup (IF e.inds # <<>> /\ ~(\E p \in all : Val(s, <<p[1], p[2], e.name>>) = e.got /\ p = <<e.inds[1], e.inds[3]>> /\
                        \E x \in s.store : x.i = p[1] /\ x.t = p[2] /\ x.n = e.inds[2] /\ (x.m = e.inds[4]))
                  THEN {"the position of what was found is wrong"} ELSE {})
        ELSE (IF ~nothing THEN {"what was stored is not found"} ELSE {})
             \cup (IF nothing /\ e.quiet = 1 /\ e.got = -1 THEN {"finding nothing is an error although none was wanted"} ELSE {})
             \cup (IF nothing /\ e.quiet = 0 /\ (e.got = 0 \/ e.err # "KeyError") THEN {"finding nothing is not reported"} ELSE {})

\* the start of the k-th chunk before the one of state p (1-based), from starts
RECURSIVE Before(_, _, _)
Before(start, p, k) == IF k = 0 THEN start[p]
                       ELSE IF start[p] = 0 THEN -1 ELSE Before(start, start[p], k - 1)

RunViol(s, e) ==
    IF e.ok = 0 THEN {"run failed: " \o e.err}
    ELSE (IF \E p \in DOMAIN e.start : ~(e.start[p] <= p - 1 /\ p - 1 < e.start[p] + e.size[p]) \/
               (\E q \in DOMAIN e.start : e.start[q] = e.start[p] /\ e.size[q] # e.size[p]) \/
               e.start[e.start[p] + 1] # e.start[p]
          THEN {"chunks do not know their position"}
          ELSE (IF \E k \in DOMAIN e.found : \E p \in DOMAIN e.start : e.found[k][p] # Before(e.start, p, k)
                THEN {"followers do not find the chunk before them"} ELSE {})
               \cup (IF \E k \in DOMAIN e.found : \E p \in DOMAIN e.start : e.found[k][p] >= 0 /\ e.pass[k][p] \notin {e.it, e.it - 1}
                     THEN {"followers find data of an earlier iteration"} ELSE {}))

XViol(s, e) ==
    IF e.op = "make" THEN IF e.ok = 0 THEN {"data were refused: " \o e.err} ELSE MakeViol(e.given, e.has)
    ELSE IF e.op = "cut" THEN CutViol(s, e)
    ELSE IF e.op = "load" THEN LoadViol(s, e)
    ELSE IF e.op = "same" THEN (IF e.before = e.after THEN {} ELSE {"data are shared: " \o e.what})
    ELSE IF e.op = "add" THEN AddViol(s, e)
    ELSE IF e.op = "put" THEN (IF e.ok = 1 THEN {} ELSE {"storing failed: " \o e.err})
    ELSE IF e.op = "ask" THEN AskViol(s, e)
    ELSE IF e.op = "blocked" THEN (IF (e.got = 1) = s.blocked THEN {} ELSE {"blocks of the convergence are not reported once"})
    ELSE IF e.op = "run" THEN RunViol(s, e)
    ELSE {}

XApply(s, e) ==
    LET t == [s EXCEPT !.n = @ + 1]
    IN  IF e.op = "make" THEN [t EXCEPT !.objs = Append(@, [kind |-> e.kind, at |-> e.at, has |-> e.has])]
        ELSE IF e.op = "cut" /\ e.ok = 1 THEN [t EXCEPT !.objs = Append(@, [kind |-> s.objs[e.src].kind, at |-> e.at, has |-> e.has])]
        ELSE IF e.op \in {"put", "block"} THEN
             [t EXCEPT !.store = IF \E x \in @ : x.i = e.i /\ x.t = e.t THEN @ ELSE @ \cup {[i |-> e.i, n |-> e.n, t |-> e.t, m |-> e.m]},
                       !.vals = IF e.op = "put" THEN Append(@, <<<<e.i, e.t, e.name>>, e.val>>) ELSE @,
                       !.blocked = (@ \/ e.op = "block")]
        ELSE IF e.op = "blocked" THEN [t EXCEPT !.blocked = FALSE]
        ELSE IF e.op = "reset" THEN
             LET now == [store |-> s.store, vals |-> s.vals, blocked |-> s.blocked]
                 new == IF e.back = 1 THEN s.kept ELSE [store |-> {}, vals |-> <<>>, blocked |-> FALSE]
             IN  [t EXCEPT !.store = new.store, !.vals = new.vals, !.blocked = new.blocked, !.kept = now]
        ELSE t
XEnd(s) == IF s.n = 0 THEN {"nothing was recorded"} ELSE {}
=============================================================================
