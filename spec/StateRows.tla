----------------------------- MODULE StateRows -----------------------------
(***************************************************************************)
(* State independence.  A table of N inflow rows; the user may permute,    *)
(* drop or duplicate rows, or select them by position or by label, before  *)
(* or after the run.  A per-row calculation commutes with all of these.    *)
(* CrossTalk models a calculation in which a row also reads the row that   *)
(* precedes it in the same table.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N, MaxLen, CrossTalk

VARIABLES tab, lab, res, hist
vars == <<tab, lab, res, hist>>

F(t, i) == IF CrossTalk /\ i > 1 /\ t[i - 1] > t[i] THEN <<t[i], t[i - 1]>> ELSE <<t[i], 0>>
Calc(t) == [i \in DOMAIN t |-> F(t, i)]

Init == /\ tab = [i \in 1..N |-> i]
        /\ lab = [i \in 1..N |-> i]
        /\ res = Calc(tab)
        /\ hist = "init"

Seqs == UNION {[1..n -> 1..Len(tab)] : n \in 1..MaxLen}

(* re-order, drop, duplicate rows of the table, then run *)
Rerun == /\ hist = "init"
         /\ \E q \in Seqs :
            /\ tab' = [i \in DOMAIN q |-> tab[q[i]]]
            /\ lab' = [i \in DOMAIN q |-> lab[q[i]]]
            /\ res' = Calc(tab')
         /\ hist' = "rerun"

(* run the full table, then select rows of the result *)
Select == /\ hist = "init"
          /\ \E q \in Seqs :
             /\ tab' = [i \in DOMAIN q |-> tab[q[i]]]
             /\ lab' = [i \in DOMAIN q |-> lab[q[i]]]
             /\ res' = [i \in DOMAIN q |-> res[q[i]]]
          /\ hist' = "select"

Next == Rerun \/ Select
Spec == Init /\ [][Next]_vars

(* a row's result is a function of the row alone *)
RowsIndependent == \A i \in DOMAIN tab : res[i] = Calc([k \in {1} |-> tab[i]])[1]
=============================================================================
