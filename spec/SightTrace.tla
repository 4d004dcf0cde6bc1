----------------------------- MODULE SightTrace -----------------------------
(***************************************************************************)
(* Recorded farm results and point results at the rotor points.            *)
(*  ambient  v, rw, ra, fa, tol: weights and ambient values at the rotor   *)
(*           points, and the ambient farm result                           *)
(*  wake     v, how: "same" (wakes at the rotor points), "average" (wakes  *)
(*           averaged over their own points, same addition at all rotor    *)
(*           points); rw, rt: at the rotor points; vw, va, vt: at the wake *)
(*           points; fa, ff: farm results; maxr                            *)
(*  hub      v, pt, ff: results at the hub and the farm results for it     *)
(*  again    a, b: two point evaluations at the same place                 *)
(*  mast     a, b: results of the other turbines with and without masts    *)
(*           (value classes)                                               *)
(***************************************************************************)
EXTENDS TraceRun, Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(f(_), k) == IF k = 0 THEN 0 ELSE f(k) + SumTo(f, k - 1)

Weight(w) == LET F(k) == w[k] IN SumTo(F, Len(w))
Sum(w, x) == LET F(k) == w[k] * x[k] IN SumTo(F, Len(w))
Diff(x, y) == [k \in DOMAIN x |-> x[k] - y[k]]

(* x is the weighted mean *)
Mean(w, vals, x, tol) == Abs(Sum(w, vals) - Weight(w) * x) <= tol * Weight(w)

(* wind speeds across the rotor are not negative *)
Speed(v, w, vals, x, tol) == Mean(w, vals, x, tol) \/ (v = "REWS" /\ x = 0 /\ Sum(w, vals) <= tol * Weight(w))

XInit(cfg) == [k |-> 0]

XViol(s, e) ==
    CASE e.op = "ambient" -> IF Mean(e.rw, e.ra, e.fa, e.tol) THEN {} ELSE {"ambient farm result is not the rotor average of the flow, " \o e.v}
      [] e.op = "wake" ->
            IF e.how = "same"
            THEN IF Speed(e.v, e.rw, e.rt, e.ff, e.tol) THEN {} ELSE {"a rotor does not see the flow at its points, " \o e.v}
            ELSE IF Speed(e.v, e.vw, [k \in DOMAIN e.vt |-> e.fa + e.vt[k] - e.va[k]], e.ff, e.tol) THEN {} ELSE {"a rotor does not see the average wake at its points, " \o e.v}
      [] e.op = "hub" -> IF Abs(e.pt - e.ff) <= e.tol THEN {} ELSE {"hub data of the farm differ from the flow at the hub, " \o e.v}
      [] e.op = "again" -> IF e.a = e.b THEN {} ELSE {"the same point twice gives different results"}
      [] e.op = "mast" -> IF e.a = e.b THEN {} ELSE {"turbines without thrust changed the results of the others"}
      [] e.op = "error" -> {"error: " \o e.v}

XApply(s, e) == [k |-> s.k + 1]
XEnd(s) == {}
=============================================================================
