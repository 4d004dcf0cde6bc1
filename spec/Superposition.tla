--------------------------- MODULE Superposition ---------------------------
(***************************************************************************)
(* Design of wake superposition: sources add their contributions to the    *)
(* points they reach, one source at a time, in any order; every point ends *)
(* with the combination of exactly the contributions it received.          *)
(* Bug: "leak" adds to all points, "overwrite" forgets earlier sources,    *)
(* "first" combines with the effect of the first source only.              *)
(***************************************************************************)
EXTENDS SuperOps, TLC

CONSTANTS NSrc, NPts, Vals, Op, P, Bug

Src == 1..NSrc
Pts == 1..NPts
VARIABLES con, reach, done, acc
vars == <<con, reach, done, acc>>

Init == /\ con \in [Src -> {v - 2 : v \in Vals}]
        /\ reach \in [Src -> SUBSET Pts]
        /\ done = {}
        /\ acc = [p \in Pts |-> Neutral]

Add(s) == /\ s \notin done
          /\ done' = done \cup {s}
          /\ acc' = [p \in Pts |->
                IF p \in reach[s] \/ (Bug = "leak" /\ reach[s] # {})
                THEN IF Bug = "overwrite" THEN Combine(Op, P, Neutral, con[s])
                     ELSE Combine(Op, P, acc[p], con[s])
                ELSE acc[p]]
          /\ UNCHANGED <<con, reach>>

Next == \E s \in Src : Add(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                     IN <<con[m]>> \o SeqOf(S \ {m})
Got(p) == {s \in done : p \in reach[s]}

(* the effect is a function of the set of contributions, not of their order *)
OrderFree == \A p \in Pts : acc[p] = Fold(Op, P, SeqOf(Got(p)))
Ambient == \A p \in Pts : Got(p) = {} => acc[p] = Neutral
Finishes == <>(done = Src)
=============================================================================
