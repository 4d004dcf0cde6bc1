---------------------------- MODULE TurbineOrder ----------------------------
(***************************************************************************)
(* Turbines are identified by name, listed in some order and processed     *)
(* from upstream to downstream.  N turbines with positions Pos along the   *)
(* wind and own data; List is the order in which the user adds them (any   *)
(* permutation).  Per-turbine arrays are in list ("farm") order until they *)
(* are permuted to wind order; results are permuted back at the end.       *)
(* Bug = "double":  model data are permuted although already permuted      *)
(* Bug = "stale":   data set before the permutation stay in list order     *)
(* Bug = "inverse": the way back uses the permutation, not its inverse     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, MaxPos, Bug

T == 1..N
Perms == {f \in [T -> T] : {f[i] : i \in T} = T}

VARIABLES pos, list, pc, arr, order, pre, res
vars == <<pos, list, pc, arr, order, pre, res>>

Own(t) == 10 * t                    (* a turbine's own datum *)

(* positions in list order of the turbines, from upstream to downstream *)
Sorted(o) == \A i \in 1..N - 1 : pos[list[o[i]]] <= pos[list[o[i + 1]]]
Inv(o) == [t \in T |-> CHOOSE i \in T : o[i] = t]

Init == /\ pos \in [T -> 0..MaxPos]
        /\ list \in Perms
        /\ pc = "list"
        /\ order = [i \in T |-> i]
        /\ arr = [i \in T |-> list[i]]            (* names, list order *)
        /\ pre = [i \in T |-> Own(list[i])]       (* data set early, list order *)
        /\ res = [i \in T |-> 0]

(* to wind order *)
Sort == /\ pc = "list"
        /\ \E o \in Perms :
           /\ Sorted(o)
           /\ order' = o
           /\ arr' = [i \in T |-> arr[o[i]]]
           /\ pre' = [i \in T |-> IF Bug = "stale" THEN pre[i] ELSE pre[o[i]]]
        /\ pc' = "wind"
        /\ UNCHANGED <<pos, list, res>>

(* evaluation: each turbine sees the number of turbines upstream of it, its *)
(* early datum and a late datum read from the list-ordered model data       *)
Late(i) == LET j == IF Bug = "double" THEN order[order[i]] ELSE order[i] IN Own(list[j])

Eval == /\ pc = "wind"
        /\ res' = [i \in T |-> <<arr[i], Cardinality({k \in T : pos[arr[k]] < pos[arr[i]]}), pre[i], Late(i)>>]
        /\ pc' = "done"
        /\ UNCHANGED <<pos, list, arr, order, pre>>

Back == /\ pc = "done"
        /\ res' = [i \in T |-> IF Bug = "inverse" THEN res[order[i]] ELSE res[Inv(order)[i]]]
        /\ pc' = "end"
        /\ UNCHANGED <<pos, list, arr, order, pre>>

Next == Sort \/ Eval \/ Back
Spec == Init /\ [][Next]_vars

OrderOk == pc # "list" => Sorted(order) /\ order \in Perms
(* at the end column i holds the result of the i-th listed turbine, which  *)
(* depends on that turbine only                                            *)
ByName == pc = "end" =>
    \A i \in T : res[i] = <<list[i], Cardinality({k \in T : pos[k] < pos[list[i]]}), Own(list[i]), Own(list[i])>>
=============================================================================
