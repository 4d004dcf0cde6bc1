------------------------------ MODULE FarmEval ------------------------------
(***************************************************************************)
(* Design of the evaluation of farm results: a table of results and state  *)
(* weights, evaluated by any sequence of reductions and additions of       *)
(* derived quantities.  Bug: "inplace" scales the table by the weights,    *)
(* "axis" forgets the weights over turbines, "alias" overwrites the input  *)
(* by the derived quantity.                                                *)
(***************************************************************************)
EXTENDS EvalOps, TLC

CONSTANTS NS, NT, Vals, Bug, MaxOps

VARIABLES x, w, derived, log, x0
vars == <<x, w, derived, log, x0>>
Tab == [1..NS -> [1..NT -> Vals]]
W == {[s \in 1..NS |-> [t \in 1..NT |-> v[s]]] : v \in [1..NS -> 1..2]}
Init == x \in Tab /\ w \in W /\ derived = <<>> /\ log = <<>> /\ x0 = x

Means == /\ log' = Append(log, [op |-> "weights", res |-> States("weights", x, w)])
         /\ x' = IF Bug = "inplace" THEN [s \in 1..NS |-> [t \in 1..NT |-> w[s][t] * x[s][t]]] ELSE x
         /\ UNCHANGED <<w, derived, x0>>
Farm == /\ log' = Append(log, [op |-> "farm", res |-> <<IF Bug = "axis" THEN SumSeq(States("sum", x, w)) ELSE All("weights", "sum", x, w)>>])
        /\ UNCHANGED <<x, w, derived, x0>>
Add == /\ derived' = [s \in 1..NS |-> [t \in 1..NT |-> 2 * x[s][t]]]
       /\ x' = IF Bug = "alias" THEN derived' ELSE x
       /\ UNCHANGED <<w, log, x0>>
Next == Len(log) < MaxOps /\ (Means \/ Farm \/ Add)
Spec == Init /\ [][Next]_vars

Untouched == x = x0
(* the farm's mean is the sum of the turbines' means, and the mean of the states' farm values *)
Consistent == \A k \in DOMAIN log :
    log[k].op = "farm" => /\ log[k].res[1] = SumSeq(States("weights", x0, w))
                          /\ log[k].res[1] = SumSeq([s \in 1..NS |-> w[s][1] * SumSeq(x0[s])])
Between == \A t \in 1..NT : LET c == Column(x, t) ww == Column(w, t) IN
    /\ Reduce("weights", c, ww) >= MinSeq(c) * SumSeq(ww)
    /\ Reduce("weights", c, ww) <= MaxSeq(c) * SumSeq(ww)
    /\ Reduce("std", c, ww) >= 0
=============================================================================
