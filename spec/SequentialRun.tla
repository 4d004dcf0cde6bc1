--------------------------- MODULE SequentialRun ---------------------------
(***************************************************************************)
(* Stepping through the states of a calculation.  Ns states have rows      *)
(* Row(s).  The user may start (or continue) an iteration, take a step,    *)
(* read the accumulated results, evaluate points at the current state, and *)
(* scribble on the results of the last step.  A step calculates the row of *)
(* the current state, stores it, tells the plug-ins and moves on; the step *)
(* after the last state ends the iteration.                                *)
(* Bug = "skip":  the position moves on before the row is stored           *)
(* Bug = "share": accumulated rows are those handed to the user            *)
(* Bug = "again": a second iteration continues at the end of the first     *)
(* Bug = "plug":  plug-ins are initialised with every iter call            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ns, MaxLen, Bug, Emit

Row(s) == 10 + s
VARIABLES on, pos, acc, last, plug, hist, visited, spoilt
vars == <<on, pos, acc, last, plug, hist, visited, spoilt>>

Init == /\ on = FALSE /\ pos = 0 /\ acc = <<>> /\ last = 0
        /\ plug = <<>> /\ hist = <<>> /\ visited = <<>> /\ spoilt = FALSE

Iter == /\ on' = TRUE
        /\ IF on THEN UNCHANGED <<pos, acc, visited, last, spoilt>> /\ plug' = IF Bug = "plug" THEN Append(plug, 0) ELSE plug
           ELSE /\ pos' = IF Bug = "again" /\ visited # <<>> THEN pos ELSE 0
                /\ acc' = [s \in 1..Ns |-> 0]
                /\ visited' = <<>> /\ last' = 0 /\ spoilt' = FALSE
                /\ plug' = <<0>>
        /\ hist' = Append(hist, "iter")

Slot == IF Bug = "skip" THEN (IF pos + 1 = Ns THEN 1 ELSE pos + 2) ELSE pos + 1

Step == /\ on
        /\ hist' = Append(hist, "next")
        /\ IF pos < Ns
           THEN /\ pos' = pos + 1
                /\ acc' = [acc EXCEPT ![Slot] = Row(pos + 1)]
                /\ last' = pos + 1
                /\ visited' = Append(visited, pos + 1)
                /\ plug' = Append(plug, Row(pos + 1))
                /\ UNCHANGED <<on, spoilt>>
           ELSE /\ on' = FALSE /\ plug' = Append(plug, -1)
                /\ UNCHANGED <<pos, acc, last, visited, spoilt>>

Read == acc # <<>> /\ hist' = Append(hist, "read") /\ UNCHANGED <<on, pos, acc, last, plug, visited, spoilt>>
Points == on /\ pos > 0 /\ hist' = Append(hist, "points") /\ UNCHANGED <<on, pos, acc, last, plug, visited, spoilt>>
Scribble == /\ on /\ last > 0 /\ ~spoilt
            /\ hist' = Append(hist, "scribble")
            /\ spoilt' = TRUE
            /\ acc' = IF Bug = "share" THEN [acc EXCEPT ![last] = 99] ELSE acc
            /\ UNCHANGED <<on, pos, last, plug, visited>>

Next == Len(hist) < MaxLen /\ (Iter \/ Step \/ Read \/ Points \/ Scribble)
Spec == Init /\ [][Next]_vars

Accumulates == \A k \in 1..Len(visited) : acc[visited[k]] = Row(visited[k])
InOrder == \A k \in 1..Len(visited) : visited[k] = k
Complete == ~on /\ acc # <<>> => Len(visited) = Ns /\ acc = [s \in 1..Ns |-> Row(s)]
Plugins == acc # <<>> => plug = <<0>> \o [k \in 1..Len(visited) |-> Row(k)] \o (IF on THEN <<>> ELSE <<-1>>)
Behaviour == IF Emit /\ Len(hist) = MaxLen THEN PrintT("BEH|" \o ToJson(hist)) ELSE TRUE
=============================================================================
