---------------------------- MODULE LayoutTrace ----------------------------
(***************************************************************************)
(* Recorded construction of wind farms.  Every event carries the whole     *)
(* farm found afterwards in e.farm.                                        *)
(*   row, grid, table, single   described by LayoutOps                     *)
(*   ring    base, rad (radius), first (direction of the first turbine,    *)
(*           1000 (x, y)), n, models, ...                                  *)
(*   random  base (centre), min, n, same (1: a second call with the same   *)
(*           seed gave the same positions)                                 *)
(*   model   turbine k (1..), model m at position pos                      *)
(*   read    the farm read back from what write made of it; keep: the      *)
(*           attributes that the format holds                              *)
(*   layout  tab: <<x, y, h>> per turbine, rounded as written              *)
(*   bounds  extra, lo, hi                                                 *)
(***************************************************************************)
EXTENDS TraceRun, LayoutOps

XInit(cfg) == [farm |-> <<>>]

Near(a, b, tol) == Abs(a - b) <= tol

Other(e, k) == [x |-> e.farm[k].x, y |-> e.farm[k].y, h |-> e.h, d |-> e.d,
                name |-> At(e.names, k - e.k0, AUTO), id |-> At(e.ids, k - e.k0, NONE), models |-> e.models]

(* what a call describes; positions that are not fixed are taken over *)
New(s, e) ==
    CASE e.t = "row" -> Row(e)
      [] e.t = "grid" -> Grid(e)
      [] e.t \in {"table", "single"} -> Table(e)
      [] e.t \in {"ring", "random"} -> IF Len(e.farm) = e.k0 + e.n THEN [k \in 1..e.n |-> Other(e, e.k0 + k)] ELSE <<>>

Want(s, e) ==
    CASE e.t \in {"row", "grid", "table", "single", "ring", "random"} -> AddAll(s.farm, New(s, e))
      [] e.t = "model" -> Change(s.farm, e.k, Insert(s.farm[e.k].models, e.pos, e.m))
      [] OTHER -> s.farm

Diff(w, g) ==
    IF Len(w) # Len(g) THEN {"number of turbines"}
    ELSE {a \in {"x", "y", "h", "d", "name", "id", "models"} : \E k \in DOMAIN w : w[k][a] # g[k][a]}

Ring(e) ==
    LET t(k) == e.farm[e.k0 + k]
        c == [x |-> e.base[1], y |-> e.base[2]]
        nx(k) == IF k = e.n THEN 1 ELSE k + 1
        dx(k) == t(k).x - c.x  dy(k) == t(k).y - c.y
    IN  (IF \A k \in 1..e.n : Near(Dist2(t(k), c), Sq(e.rad), 4 * e.rad + 4) THEN {} ELSE {"ring: not on the circle"})
        \cup (IF \A k \in 1..e.n : Near(Dist2(t(k), t(nx(k))), Dist2(t(1), t(nx(1))), 10 * e.rad) THEN {} ELSE {"ring: not evenly spaced"})
        \cup (IF e.n < 3 \/ \A k \in 1..e.n : dx(k) * dy(nx(k)) - dy(k) * dx(nx(k)) < 0 THEN {} ELSE {"ring: not clockwise"})
        \cup (IF Near(dx(1) * 1000, e.rad * e.first[1], 2 * e.rad + 2000) /\ Near(dy(1) * 1000, e.rad * e.first[2], 2 * e.rad + 2000) THEN {}
              ELSE {"ring: wrong first direction"})
        \cup (IF e.n < 3 \/ \A j, k \in 1..e.n : j = k \/ Dist2(t(j), t(k)) >= Dist2(t(1), t(2)) \div 2 THEN {} ELSE {"ring: turbines coincide"})

RECURSIVE SumX(_, _, _)
SumX(f, a, k) == IF k = 0 THEN 0 ELSE f[k][a] + SumX(f, a, k - 1)

Random(e) ==
    LET ts == SubSeq(e.farm, e.k0 + 1, Len(e.farm)) IN
    (IF \A j, k \in DOMAIN ts : j = k \/ Dist2(ts[j], ts[k]) >= Sq(e.min - 2) THEN {} ELSE {"random: turbines too close"})
    \cup (IF Near(SumX(ts, "x", e.n), e.n * e.base[1], 2 * e.n) /\ Near(SumX(ts, "y", e.n), e.n * e.base[2], 2 * e.n) THEN {}
          ELSE {"random: not around the centre"})
    \cup (IF e.same = 1 THEN {} ELSE {"random: the seed does not fix the layout"})

Read(s, e) ==
    LET g == e.got  w == s.farm IN
    IF Len(g) # Len(w) THEN {"number of turbines read"}
    ELSE {a \in {e.keep[k] : k \in DOMAIN e.keep} : \E k \in DOMAIN w : w[k][a] # g[k][a]}

Bound(s, e) ==
    LET X == {s.farm[k].x : k \in DOMAIN s.farm}  Y == {s.farm[k].y : k \in DOMAIN s.farm}
        lo(S) == CHOOSE x \in S : \A y \in S : x <= y
        hi(S) == CHOOSE x \in S : \A y \in S : x >= y
    IN  IF e.lo = <<lo(X) - e.extra, lo(Y) - e.extra>> /\ e.hi = <<hi(X) + e.extra, hi(Y) + e.extra>> THEN {} ELSE {"farm bounds are not those of the turbines"}

XViol(s, e) ==
    IF e.ok = 0 THEN {"layout failed: " \o e.t \o ", " \o e.err}
    ELSE {"not the described layout after " \o e.t \o e.how \o ": " \o a : a \in Diff(Want(s, e), e.farm)}
         \cup (IF e.t = "ring" /\ Len(e.farm) = e.k0 + e.n THEN Ring(e) ELSE {})
         \cup (IF e.t = "random" /\ Len(e.farm) = e.k0 + e.n THEN Random(e) ELSE {})
         \cup (IF e.t = "read" THEN {"layout read back differs, " \o e.how \o ": " \o a : a \in Read(s, e)} ELSE {})
         \cup (IF e.t = "layout" THEN (IF e.tab = [k \in DOMAIN s.farm |-> <<s.farm[k].x, s.farm[k].y, s.farm[k].h>>] THEN {} ELSE {"layout table differs"}) ELSE {})
         \cup (IF e.t = "bounds" THEN Bound(s, e) ELSE {})
         \cup (IF e.args = 1 THEN {} ELSE {"arguments altered by " \o e.t \o e.how})

XApply(s, e) == IF e.ok = 0 THEN s ELSE [s EXCEPT !.farm = e.farm]
XEnd(s) == {}
=============================================================================
