------------------------------- MODULE IterRun ------------------------------
(***************************************************************************)
(* The iteration loop.  A monitored quantity, an angle in steps of a       *)
(* circle of Circle steps, takes scripted values in successive passes, and *)
(* convergence may be blocked during any pass.  The loop ends after the    *)
(* first pass that is not blocked and agrees with the one before within    *)
(* Lim, or with pass MaxIt; the final results are those of the last pass.  *)
(* Bug = "flat":   angles are compared as numbers                          *)
(* Bug = "first":  the first pass agrees with nothing before it            *)
(* Bug = "block":  blocks stay in force only if raised in the first pass   *)
(* Bug = "sticky": a block is never lifted                                 *)
(* Bug = "limit":  the limit is not enforced                               *)
(***************************************************************************)
EXTENDS IterOps, FiniteSets, TLC, Json

CONSTANTS MaxIt, Circle, Lim, Bug, Emit

VARIABLES it, val, prev, blk, ever, done, script
vars == <<it, val, prev, blk, ever, done, script>>

Init == /\ it = -1 /\ val = -1 /\ prev = -1 /\ blk = FALSE /\ ever = FALSE /\ done = FALSE /\ script = <<>>

Steps == Circle - 1
Pass == /\ ~done
        /\ it < (IF Bug = "limit" THEN MaxIt + 1 ELSE MaxIt)
        /\ \E x \in 0..Steps, b \in BOOLEAN :
             /\ it' = it + 1
             /\ prev' = val /\ val' = x
             /\ blk' = b /\ ever' = (ever \/ b)
             /\ script' = Append(script, <<x, IF b THEN 1 ELSE 0>>)
             /\ LET d == Delta(val, x, IF Bug = "flat" THEN 0 ELSE Circle)
                    agree == IF it = -1 THEN Bug = "first" ELSE d <= Lim
                    blocked == IF Bug = "block" THEN b /\ it = -1 ELSE IF Bug = "sticky" THEN ever' ELSE b
                IN  done' = (agree /\ ~blocked)

Next == Pass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == done \/ it >= MaxIt
TrueAgree == it > 0 /\ Delta(prev, val, Circle) <= Lim
StopsRight == done => TrueAgree /\ ~blk
StopsFirst == TrueAgree /\ ~blk => done
Limited == it <= MaxIt
Terminates == <>(Ends)
Behaviour == IF Emit /\ it >= 0 /\ (done \/ it = MaxIt) THEN PrintT("BEH|" \o ToJson(script)) ELSE TRUE
=============================================================================
