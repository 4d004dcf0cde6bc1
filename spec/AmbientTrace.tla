---------------------------- MODULE AmbientTrace ----------------------------
(***************************************************************************)
(* Recorded runs of one farm and inflow with different wake set-ups.       *)
(* cfg:   names of the turbines; tgeo[s][t], pgeo[s][p]: [along, lateral]  *)
(*        coordinates in m for the wind of state s; steady 1 if only the   *)
(*        wind of the state itself matters                                 *)
(*        yawed[t] 1 for turbines turned out of the wind by a model: their  *)
(*        waked results refer to the turned rotor                          *)
(* event: what "farm" / "points"; wakes 0 none configured, 1 configured;   *)
(*        ambient 1: only ambient results were asked for;                  *)
(*        ind 1: wake models that also act upstream                        *)
(*        plain, amb: [s][t] value ids of the quantities and of their      *)
(*        ambient counterparts (<<>> if not delivered)                     *)
(***************************************************************************)
EXTENDS TraceRun

XInit(cfg) == [cfg |-> cfg, farm |-> <<>>, points |-> <<>>, nw |-> 0, nn |-> 0, free |-> 0]

AbsI(x) == IF x < 0 THEN -x ELSE x
(* a wake of a turbine at a cannot reach b: b is upstream, or far aside *)
Misses(a, b) ==
    LET dx == b[1] - a[1]
        dy == AbsI(b[2] - a[2])
    IN  (dx < 0 /\ 3 * dy < 10 * (-dx) /\ dx < -200) \/ (dy > 5000 /\ AbsI(dx) < 5000)

Geo(s, e, k) == IF e.what = "farm" THEN s.cfg.tgeo[k] ELSE s.cfg.pgeo[k]
FreeAt(s, e, k, c) == \A t \in DOMAIN s.cfg.tgeo[k] : (e.what = "farm" /\ t = c) \/ Misses(s.cfg.tgeo[k][t], Geo(s, e, k)[c])
Aligned(s, e, c) == IF e.what = "farm" THEN s.cfg.yawed[c] = 0 ELSE TRUE
Free(s, e, k, c) == /\ e.ind = 0
                    /\ Aligned(s, e, c)
                    /\ \A q \in DOMAIN s.cfg.tgeo : (q = k \/ s.cfg.steady = 0) => FreeAt(s, e, q, c)

SamePlain(s, e) == \A k \in DOMAIN e.plain : \A c \in DOMAIN e.plain[k] : Aligned(s, e, c) => e.plain[k][c] = e.amb[k][c]

FreeCells(s, e) == {q \in (DOMAIN e.plain) \X (DOMAIN e.plain[1]) : Free(s, e, q[1], q[2])}

XViol(s, e) ==
    LET seen == IF e.what = "farm" THEN s.farm ELSE s.points IN
    IF e.ok = 0 THEN {e.what \o " failed: " \o e.err}
    ELSE (IF e.what = "farm" /\ e.names # s.cfg.names THEN {"columns are not in the order of the farm"} ELSE {})
         \cup (IF e.amb # <<>> /\ seen # <<>> /\ e.amb # seen THEN {e.what \o ": ambient results depend on the wake set-up"} ELSE {})
         \cup (IF e.amb = <<>> THEN {e.what \o ": ambient results are missing"} ELSE {})
         \cup (IF e.ambient = 1 /\ e.plain # <<>> THEN {e.what \o ": an ambient-only run delivers waked quantities"} ELSE {})
         \cup (IF e.wakes = 0 /\ e.plain # <<>> /\ ~SamePlain(s, e)
               THEN {e.what \o ": results without wakes differ from the ambient results"} ELSE {})
         \cup (IF e.wakes = 1 /\ e.ambient = 0 /\ \E q \in FreeCells(s, e) : e.plain[q[1]][q[2]] # e.amb[q[1]][q[2]]
               THEN {e.what \o ": waked and ambient results differ where no wake reaches"} ELSE {})

XApply(s, e) ==
    IF e.ok = 0 THEN s
    ELSE [s EXCEPT !.farm = IF e.what = "farm" /\ @ = <<>> THEN e.amb ELSE @,
                   !.points = IF e.what = "points" /\ @ = <<>> THEN e.amb ELSE @,
                   !.nw = @ + e.wakes * (1 - e.ambient),
                   !.nn = @ + (IF e.wakes = 0 \/ e.ambient = 1 THEN 1 ELSE 0),
                   !.free = @ + (IF e.wakes = 1 /\ e.ambient = 0 THEN Cardinality(FreeCells(s, e)) ELSE 0)]
XEnd(s) == IF s.nw = 0 \/ s.nn = 0 THEN {"nothing was compared"} ELSE {}
=============================================================================
