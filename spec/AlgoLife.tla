------------------------------ MODULE AlgoLife ------------------------------
(***************************************************************************)
(* Life cycle of one algorithm object: calls that the user may make in any *)
(* order.  The object caches data (initialised models, stored model data,  *)
(* iteration results); none of it may show in a result.                    *)
(*                                                                         *)
(* cur     index of the inflow object in use, 1..NInflow                   *)
(* init    models are initialised and their data are stored                *)
(* have    inflows for which the user holds a waked farm result            *)
(* stored  what the cache was built from (0: nothing)                      *)
(* hist    the calls so far; out: the inflow each result was made from     *)
(* StaleCache = TRUE models an object whose cache survives a change of     *)
(* inflow (sanity run: FromCurrent has to fail).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NInflow, MaxLen, StaleCache, Emit

VARIABLES cur, init, have, stored, hist, out
vars == <<cur, init, have, stored, hist, out>>

Init == /\ cur = 1 /\ init = FALSE /\ have = {} /\ stored = 0
        /\ hist = <<>> /\ out = <<>>

Step(op) == Len(hist) < MaxLen /\ hist' = Append(hist, op)
Load == stored' = IF stored = 0 \/ ~init THEN cur ELSE stored

(* a calculation; keep: the models stay initialised *)
Calc(op, keep) ==
    /\ Step(op)
    /\ stored' = IF keep THEN (IF init THEN stored ELSE cur) ELSE 0
    /\ init' = keep
    /\ out' = Append(out, <<op, cur, IF init THEN stored ELSE cur>>)
    /\ UNCHANGED cur

Farm == Calc("farm", FALSE) /\ have' = have \cup {cur}
FarmKeep == Calc("farmkeep", TRUE) /\ have' = have \cup {cur}
FarmAmb == Calc("farmamb", FALSE) /\ UNCHANGED have
Points == cur \in have /\ Calc("points", FALSE) /\ UNCHANGED have
PointsKeep == cur \in have /\ Calc("pointskeep", TRUE) /\ UNCHANGED have
PointsAmb == cur \in have /\ Calc("pointsamb", FALSE) /\ UNCHANGED have
(* farm calculation with a selected list of outputs *)
FarmOut == Calc("farmout", FALSE) /\ UNCHANGED have

Finalize == /\ init /\ Step("finalize") /\ init' = FALSE /\ stored' = 0
            /\ UNCHANGED <<cur, have, out>>
Clear == /\ Step("clear") /\ init' = FALSE /\ stored' = 0
         /\ UNCHANGED <<cur, have, out>>
SetInflow == /\ NInflow > 1 /\ Step("inflow") /\ cur' = (cur % NInflow) + 1
             /\ stored' = IF StaleCache THEN stored ELSE IF init THEN cur' ELSE 0
             /\ UNCHANGED <<init, have, out>>
(* another algorithm object, built from the same farm, inflow and model book *)
Other == /\ ~init /\ Step("other") /\ out' = Append(out, <<"farm", cur, cur>>)
         /\ UNCHANGED <<cur, init, have, stored>>

Next == Farm \/ FarmKeep \/ FarmAmb \/ FarmOut \/ Points \/ PointsKeep \/ PointsAmb
        \/ Finalize \/ Clear \/ SetInflow \/ Other
Spec == Init /\ [][Next]_vars

FromCurrent == \A k \in DOMAIN out : out[k][2] = out[k][3]
CacheOwner == init => stored = cur

(* prints every complete history as a behaviour to be replayed *)
Behaviour == (Emit /\ Len(hist) = MaxLen) => PrintT("BEH|" \o ToJson(hist))
=============================================================================
