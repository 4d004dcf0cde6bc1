------------------------------ MODULE FaultOps ------------------------------
(***************************************************************************)
(* What a caller observes of calculations in which something may fail.     *)
(* Operations: "farm", "points", "amb" on a single-pass algorithm; "iter", *)
(* "ipoints" on an iterative one; "other" on an algorithm with objects of  *)
(* its own; "seq", one step of a sequential one.  The caller's state is    *)
(* the number of completed steps of the latter.                            *)
(* Results are named by numbers, 0 stands for none.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

FOps == <<"farm", "points", "iter", "ipoints", "amb", "other">>
EndOfSteps == 99

Value(seq, n, op) ==
    IF op = "seq" THEN (IF seq < n THEN 100 + seq ELSE EndOfSteps)
    ELSE CHOOSE k \in 1..Len(FOps) : FOps[k] = op

(* <<accepted, value, completed steps afterwards>> *)
Observed(seq, n, op, failed) ==
    IF failed THEN <<FALSE, 0, seq>>
    ELSE <<TRUE, Value(seq, n, op),
           IF op # "seq" THEN seq ELSE IF seq < n THEN seq + 1 ELSE 0>>
=============================================================================
