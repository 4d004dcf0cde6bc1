----------------------------- MODULE ModelMerge -----------------------------
(***************************************************************************)
(* Merging the model lists of the turbines into one order: the next model  *)
(* is one that is first in every list that still contains it.              *)
(***************************************************************************)
EXTENDS ModelOps

CONSTANTS NT, MaxLen, Mods, Bug

VARIABLES lists, at, out, hist, stopped

vars == <<lists, at, out, hist, stopped>>

Lists == UNION {[1..n -> Mods] : n \in 0..MaxLen}

Init == /\ lists \in [1..NT -> {l \in Lists : Distinct(l)}]
        /\ at = [t \in 1..NT |-> 0]
        /\ out = <<>>
        /\ hist = [t \in 1..NT |-> <<>>]
        /\ stopped = FALSE

Rest(t) == SubSeq(lists[t], at[t] + 1, Len(lists[t]))
Front(t, m) == Rest(t) # <<>> /\ Head(Rest(t)) = m
Ready(m) == \A t \in 1..NT : m \in Range(Rest(t)) => (Front(t, m) \/ (Bug = "first" /\ t # 1))
Candidates == {m \in Mods : (\E t \in 1..NT : Front(t, m)) /\ Ready(m)}

Take(m) == /\ m \in Candidates
           /\ out' = Append(out, m)
           /\ LET T == {t \in 1..NT : IF Bug = "first" THEN m \in Range(Rest(t)) ELSE Front(t, m)} IN
              /\ at' = [t \in 1..NT |-> IF t \in T THEN at[t] + 1 ELSE at[t]]
              /\ hist' = [t \in 1..NT |-> IF t \in T THEN Append(hist[t], m) ELSE hist[t]]
           /\ UNCHANGED <<lists, stopped>>

Stop == Candidates = {} /\ ~stopped /\ stopped' = TRUE /\ UNCHANGED <<lists, at, out, hist>>

Next == (~stopped /\ \E m \in Mods : Take(m)) \/ Stop
Spec == Init /\ [][Next]_vars

Complete == \A t \in 1..NT : at[t] = Len(lists[t])
(* refused exactly when there is no common order *)
RefusedRight == stopped => (IF Bug = "stuck" THEN Complete ELSE Complete = Mergeable(lists))
OrderKept == stopped /\ Complete => hist = lists
OncePerModel == \A i, j \in DOMAIN out : i # j => out[i] # out[j]
=============================================================================
