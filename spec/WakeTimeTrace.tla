--------------------------- MODULE WakeTimeTrace ---------------------------
(***************************************************************************)
(* Recorded calculations with travelling wakes.  cfg: frame, d (moves per  *)
(* time), T (turbines), P (places), age, len, far (extent of the farm      *)
(* along the wind, in 0.1 m), move (distance per time step, 0.1 m), n      *)
(* (turbines).                                                             *)
(*  src     src[t][p][i]: time of emission found for turbine i             *)
(*  causal  ids of the results per time, for inflows equal before tau      *)
(*  steady  ids per time and the id of the steady calculation              *)
(*  chunks  ids per time of two ways to split the times                    *)
(*  flow    values delivered by inflow measured at one point               *)
(***************************************************************************)
EXTENDS TraceRun, WakeTimeOps

XInit(cfg) == [cfg |-> cfg]

Src(s, e, t, p, i) ==
    LET d == s.cfg.d  T == s.cfg.T[i]  P == s.cfg.P[p]  x == e.src[t][p][i] IN
    (IF x < 0 THEN {"a wake that belongs to no time"} ELSE {})
    \cup (IF x > 0 /\ ~Causal(x, t) THEN {"a wake from the future"} ELSE {})
    \cup (IF x > 0 /\ Causal(x, t) /\ ~Arrived(d, T, P, x, t) THEN {"a wake is where the inflow did not carry it"} ELSE {})
    \cup (IF x > 0 /\ Causal(x, t) /\ ~Alive(d, x, t, s.cfg.age, s.cfg.len) THEN {"a wake outlives its age"} ELSE {})
    \cup (IF x >= 0 /\ ~Found(d, T, P, x, t, s.cfg.age, s.cfg.len) THEN {"a wake did not arrive"} ELSE {})

(* time for the inflow to cross the farm, once for every turbine that hands its state on *)
Flushed(s) == (s.cfg.far \div s.cfg.move) + s.cfg.n + 2

(* inflow measured at T[1] = <<0, 0>>: air found at P passed there within two steps of the time it was measured,
   before the first and after the last measurement that one holds *)
FlowOk(s, e, t, p) ==
    LET d == s.cfg.d  n == Len(d)  P == s.cfg.P[p]  T == s.cfg.T[1]
        At(k) == IF k <= t THEN Parcel(d, T, k, t)
                 ELSE <<T[1] - Moved(d, 1, t, k), T[2] - Moved(d, 2, t, k)>>
        C == {k \in 1..n : Apart(At(k), P) <= 2 * Step(d, n)}
        v == e.val[t][p]
    IN  IF C = {} THEN v = 10 * s.cfg.tab[IF P[1] * d[t][1] + P[2] * d[t][2] > 0 THEN 1 ELSE n]
        ELSE ((\E k \in C : 10 * s.cfg.tab[k] <= v) /\ (\E k \in C : v <= 10 * s.cfg.tab[k]))

XViol(s, e) ==
    IF e.ok = 0 THEN {"failed: " \o e.err}
    ELSE CASE e.t = "src" -> UNION {Src(s, e, t, p, i) : t \in DOMAIN e.src, p \in DOMAIN s.cfg.P, i \in DOMAIN s.cfg.T}
           [] e.t = "causal" -> IF \A t \in DOMAIN e.a : t < e.tau => e.a[t] = e.b[t] THEN {}
                                ELSE {"results depend on what happens later, " \o e.what}
           [] e.t = "chunks" -> IF e.a = e.b THEN {} ELSE {"results depend on the chunks, " \o e.what}
           [] e.t = "steady" -> IF \A t \in DOMAIN e.a : t > Flushed(s) => e.a[t] = e.s THEN {}
                                ELSE {"constant inflow does not lead to the steady results, " \o e.what}
           [] e.t = "flow" -> IF \A t \in DOMAIN e.val : \A p \in DOMAIN s.cfg.P : FlowOk(s, e, t, p) THEN {}
                              ELSE {"inflow that was not measured when the air passed"}
XApply(s, e) == s
XEnd(s) == {}
=============================================================================
