------------------------------ MODULE RoseRun ------------------------------
(***************************************************************************)
(* States arrive one by one and are counted in the cells of a wind rose    *)
(* and in the weighted sums behind a mean slice.                           *)
(***************************************************************************)
EXTENDS RoseOps, TLC

CONSTANTS MaxStates, Bug

Dirs == {0, 4500, 8999, 9000, 18000, 31499, 31500, 35999}
Speeds == {0, 50, 70, 100, 120}
Classes == <<0, 50, 100>>

VARIABLES n, wd, ws, w, tab, sel, num, den
vars == <<n, wd, ws, w, tab, sel, num, den>>

Cells == (0..n - 1) \X (1..Len(Classes) - 1)
Init == /\ n \in {2, 4, 8}
        /\ wd = <<>> /\ ws = <<>> /\ w = <<>>
        /\ tab = [c \in (0..n - 1) \X (1..Len(Classes) - 1) |-> 0]
        /\ sel \in SUBSET (1..MaxStates)
        /\ num = 0 /\ den = 0

Mine(d) ==
    CASE Bug = "nowrap" -> {i \in 0..n - 1 : 2 * d * n >= 72000 * i - 36000 /\ 2 * d * n < 72000 * i + 36000}
      [] Bug = "closed" -> {i \in 0..n - 1 : 2 * d * n >= 72000 * i - 36000 /\ 2 * d * n <= 72000 * i + 36000} \cup {Sector(d, n)}
      [] OTHER -> {Sector(d, n)}

Arrive ==
    /\ Len(wd) < MaxStates
    /\ \E d \in Dirs, v \in Speeds, x \in 1..2 :
        /\ wd' = Append(wd, d) /\ ws' = Append(ws, v) /\ w' = Append(w, x)
        /\ tab' = [c \in Cells |-> tab[c] + (IF c[1] \in Mine(d) /\ InClass(v, Classes, c[2]) THEN x ELSE 0)]
        /\ LET k == Len(wd) + 1 IN
            IF k \in sel
            THEN /\ num' = num + x * v
                 /\ den' = den + x
            ELSE /\ num' = num
                 /\ den' = IF Bug = "unnorm" THEN den + x ELSE den
    /\ UNCHANGED <<n, sel>>

Next == Arrive
Spec == Init /\ [][Next]_vars

RECURSIVE TabSum(_)
TabSum(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN tab[c] + TabSum(S \ {c})

R == [wd |-> wd, ws |-> ws, n |-> n, b |-> Classes]

(* frequencies add up to the weight of the states within the classes *)
Total ==
    LET P(s) == ws[s] >= 0 /\ ws[s] <= 100
        F(s) == w[s]
    IN  TabSum(Cells) = SumF(P, F, Len(wd))

CellsRight == \A c \in Cells : LET F(s) == w[s] IN tab[c] = Cell(R, c[1], c[2], F)

(* a mean over selected states stays between their values *)
MeanInside ==
    LET V == {ws[k] : k \in {k \in sel : k <= Len(ws)}} IN
    V # {} => /\ num >= Least(V) * den /\ num <= Most(V) * den
=============================================================================
