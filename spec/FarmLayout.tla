----------------------------- MODULE FarmLayout -----------------------------
(***************************************************************************)
(* Building a farm step by step: rows and tables of turbines that share a  *)
(* template of models, later changes to single turbines, writing and       *)
(* reading back.  Models are held by reference: heap[ref] is a list.       *)
(***************************************************************************)
EXTENDS LayoutOps

CONSTANTS MaxOps, Bug

VARIABLES farm, heap, ideal, ops

vars == <<farm, heap, ideal, ops>>

Lists == {<<>>, <<"m">>}

(* farm[k] = [x, h, id, ref]; ideal[k] the same with the models by value *)
Init == farm = <<>> /\ heap = <<>> /\ ideal = <<>> /\ ops = 0

Fresh(k) == Len(heap) + k
AddRow(n, h, ms) ==
    /\ Len(farm) + n <= 4
    /\ LET refs == [k \in 1..n |-> IF Bug = "shared" THEN Fresh(1) ELSE Fresh(k)]
           new == [k \in 1..n |-> [x |-> k, h |-> h, id |-> (IF Bug = "restart" THEN 0 ELSE Len(farm)) + k - 1, ref |-> refs[k]]]
           want == [k \in 1..n |-> [x |-> k, h |-> h, id |-> Len(farm) + k - 1, models |-> ms]]
       IN  /\ farm' = farm \o new
           /\ ideal' = ideal \o want
           /\ heap' = heap \o [k \in 1..(IF Bug = "shared" THEN 1 ELSE n) |-> ms]

AddModel(k) ==
    /\ k \in DOMAIN farm
    /\ Len(ideal[k].models) < 2
    /\ heap' = [heap EXCEPT ![farm[k].ref] = Append(@, "n")]
    /\ ideal' = [ideal EXCEPT ![k].models = Append(@, "n")]
    /\ UNCHANGED farm

(* write a file and read it back into a new farm: unknown sizes stay unknown *)
ReadBack ==
    /\ farm # <<>>
    /\ farm' = [k \in DOMAIN farm |-> [farm[k] EXCEPT !.h = IF Bug = "nosize" THEN NONE ELSE IF @ = NONE /\ Bug = "nan" THEN -99 ELSE @]]
    /\ UNCHANGED <<heap, ideal>>

Next == /\ ops < MaxOps
        /\ ops' = ops + 1
        /\ \/ \E n \in 1..2, h \in {NONE, 90}, ms \in Lists : AddRow(n, h, ms)
           \/ \E k \in 1..4 : AddModel(k)
           \/ ReadBack

Spec == Init /\ [][Next]_vars

View(k) == [x |-> farm[k].x, h |-> farm[k].h, id |-> farm[k].id, models |-> heap[farm[k].ref]]
AsDescribed == [k \in DOMAIN farm |-> View(k)] = ideal
IdsFollow == \A k \in DOMAIN farm : farm[k].id = k - 1
=============================================================================
