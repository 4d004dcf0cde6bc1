------------------------------ MODULE TypeEval ------------------------------
(***************************************************************************)
(* Design of turbine type evaluation: types run one after the other, each  *)
(* for its own cells (states x turbines), reading the wind speed of a cell *)
(* and writing its power.  Repetitions must not change anything.           *)
(* Bug: "inplace" stores the equivalent speed, "all" ignores the           *)
(* selection, "edge" extrapolates beyond the table.                        *)
(***************************************************************************)
EXTENDS TypeOps, TLC

CONSTANTS NC, Speeds, Rounds, Bug

Cells == 1..NC
Types == {"a", "b"}
XS == <<4, 8, 16>>
YS(t) == IF t = "a" THEN <<0, 8, 16>> ELSE <<4, 0, 8>>
(* type a corrects for yaw by halving the speed *)
Eq(t, w) == IF t = "a" THEN EqP(w, 0, 1, 3) ELSE w

VARIABLES ws0, ws, typ, pow, todo, round
vars == <<ws0, ws, typ, pow, todo, round>>

Init == /\ ws0 \in [Cells -> Speeds]
        /\ typ \in [Cells -> Types]
        /\ ws = ws0
        /\ pow = [c \in Cells |-> -1]
        /\ todo = Types
        /\ round = 1

Value(t, w) == IF Bug = "edge" /\ w > 16 THEN 8 * YS(t)[3] ELSE Interp(XS, YS(t), w, 8)

Eval(t) == /\ t \in todo
           /\ todo' = todo \ {t}
           /\ LET sel == {c \in Cells : typ[c] = t \/ Bug = "all"}
                  e == [c \in Cells |-> Eq(t, ws[c])]
              IN  /\ pow' = [c \in Cells |-> IF c \in sel THEN Value(t, e[c]) ELSE pow[c]]
                  /\ ws' = [c \in Cells |-> IF Bug = "inplace" /\ c \in sel THEN e[c] ELSE ws[c]]
           /\ UNCHANGED <<ws0, typ, round>>

Again == /\ todo = {} /\ round < Rounds
         /\ round' = round + 1
         /\ todo' = Types
         /\ UNCHANGED <<ws0, ws, typ, pow>>

Next == Again \/ \E t \in Types : Eval(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Unaltered == ws = ws0
Tabulated == todo = {} => \A c \in Cells : pow[c] = Interp(XS, YS(typ[c]), Eq(typ[c], ws0[c]), 8)
OwnCells == \A c \in Cells : typ[c] \in todo /\ round = 1 => pow[c] = -1
Finishes == <>(todo = {} /\ round = Rounds)
=============================================================================
