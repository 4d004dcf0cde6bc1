------------------------------ MODULE RotorAvg ------------------------------
(***************************************************************************)
(* Design of rotor averaging: weighted points, refined by splitting points *)
(* into parts that share their weight.  Bug: "nonorm" refines without      *)
(* sharing the weight between the parts, "lost" drops a part.              *)
(***************************************************************************)
EXTENDS DiscOps, TLC

CONSTANTS N, MaxV, MaxW, Steps, Bug

VARIABLES pts, mean0, step     \* pts: sequence of <<value, weight>>
vars == <<pts, mean0, step>>

W(p) == SumTo(LAMBDA k : p[k][2], Len(p))
S(p, e) == SumTo(LAMBDA k : p[k][2] * (CASE e = 1 -> p[k][1] [] e = 2 -> Sq(p[k][1]) [] e = 3 -> p[k][1] * Sq(p[k][1])), Len(p))

Init == /\ pts \in [1..N -> (0..MaxV) \X (1..MaxW)]
        /\ mean0 = <<S(pts, 1), W(pts)>>
        /\ step = 0

(* all weights are doubled, so that a point can be split into two halves *)
Split(k) ==
    LET double == [j \in DOMAIN pts |-> <<pts[j][1], 2 * pts[j][2]>>]
        half == <<pts[k][1], IF Bug = "nonorm" THEN 2 * pts[k][2] ELSE pts[k][2]>>
    IN  pts' = [double EXCEPT ![k] = half] \o (IF Bug = "lost" THEN <<>> ELSE <<half>>)
Next == /\ step < Steps
        /\ \E k \in DOMAIN pts : Split(k)
        /\ step' = step + 1
        /\ UNCHANGED mean0
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

SameMean == S(pts, 1) * mean0[2] = mean0[1] * W(pts)
Uniform == (\A j, k \in DOMAIN pts : pts[j][1] = pts[k][1]) => S(pts, 1) = pts[1][1] * W(pts)
Bounded == \E j, k \in DOMAIN pts : pts[j][1] * W(pts) <= S(pts, 1) /\ S(pts, 1) <= pts[k][1] * W(pts)
PowerMean == /\ Sq(S(pts, 1)) <= W(pts) * S(pts, 2)
             /\ S(pts, 2) * Sq(S(pts, 2)) <= W(pts) * Sq(S(pts, 3))
Finishes == <>(step = Steps)
=============================================================================
