---------------------------- MODULE AmbientFlow -----------------------------
(***************************************************************************)
(* How ambient results come about.  N turbines stand in line along the     *)
(* wind in any listed order; the inflow at turbine t is U[t].  The rotor   *)
(* model reads the inflow, turbine models derive a load from it, ambient   *)
(* copies are taken, wakes then reduce the inflow of turbines further      *)
(* downstream and the turbine models run again; the iterative algorithm    *)
(* repeats this; finally the listed order is restored.                     *)
(* Bug = "late":   the ambient copies are taken after the wakes            *)
(* Bug = "alias":  the ambient results share their memory with the waked   *)
(* Bug = "again":  later iterations copy anew, from waked values           *)
(* Bug = "load":   only the inflow is copied, the ambient load is the last *)
(* Bug = "order":  ambient-only runs stay in downwind order                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, MaxU, MaxIt, Bug

T == 1..N
Perms == {f \in [T -> T] : {f[i] : i \in T} = T}
Load(u) == 2 * u + 1

VARIABLES u, list, wakes, mode, pc, it, ws, ld, aws, ald
vars == <<u, list, wakes, mode, pc, it, ws, ld, aws, ald>>

Init == /\ u \in [T -> 1..MaxU]
        /\ list \in Perms             (* list[i]: turbine in column i; turbine 1 is the most upstream *)
        /\ wakes \in {TRUE, FALSE}
        /\ mode \in {"single", "iterative", "ambient"}
        /\ pc = "rotor" /\ it = 1
        /\ ws = [t \in T |-> 0] /\ ld = [t \in T |-> 0] /\ aws = [t \in T |-> 0] /\ ald = [t \in T |-> 0]

Rotor == /\ pc = "rotor"
         /\ ws' = IF it = 1 THEN u ELSE ws
         /\ ld' = IF it = 1 THEN [t \in T |-> Load(u[t])] ELSE ld
         /\ IF it = 1 \/ Bug = "again" THEN aws' = ws' /\ ald' = ld' ELSE UNCHANGED <<aws, ald>>
         /\ pc' = IF mode = "ambient" THEN "order" ELSE "wakes"
         /\ UNCHANGED <<u, list, wakes, mode, it>>

Waked(t) == IF wakes /\ t > 1 THEN u[t] - 1 ELSE u[t]

Wakes == /\ pc = "wakes"
         /\ ws' = [t \in T |-> Waked(t)]
         /\ ld' = [t \in T |-> Load(Waked(t))]
         /\ aws' = IF Bug \in {"late", "alias"} THEN ws' ELSE aws
         /\ ald' = IF Bug \in {"late", "alias", "load"} THEN ld' ELSE ald
         /\ IF mode = "iterative" /\ it < MaxIt
            THEN pc' = "rotor" /\ it' = it + 1
            ELSE pc' = "order" /\ UNCHANGED it
         /\ UNCHANGED <<u, list, wakes, mode>>

Col(a) == IF Bug = "order" /\ mode = "ambient" THEN a ELSE [i \in T |-> a[list[i]]]
Order == /\ pc = "order"
         /\ ws' = Col(ws) /\ ld' = Col(ld) /\ aws' = Col(aws) /\ ald' = Col(ald)
         /\ pc' = "end"
         /\ UNCHANGED <<u, list, wakes, mode, it>>

Next == Rotor \/ Wakes \/ Order
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

FreeOfWakes == pc = "end" => \A i \in T : aws[i] = u[list[i]] /\ ald[i] = Load(u[list[i]])
NoWakes == pc = "end" /\ (~wakes \/ mode = "ambient") => ws = aws /\ ld = ald
Unreached == pc = "end" => \A i \in T : list[i] = 1 => ws[i] = aws[i] /\ ld[i] = ald[i]
Finishes == <>(pc = "end")
=============================================================================
