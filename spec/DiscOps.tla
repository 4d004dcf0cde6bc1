------------------------------ MODULE DiscOps ------------------------------
(***************************************************************************)
(* Points and weights on a rotor disc, in integers.  A grid of n x n cells *)
(* over the square around the disc; the weight of a cell is the number of  *)
(* its m x m sub-cells whose centre is on the disc.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumOver(_, _)
SumOver(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f(x) + SumOver(f, S \ {x})
RECURSIVE SumTo(_, _)
SumTo(f(_), k) == IF k = 0 THEN 0 ELSE f(k) + SumTo(f, k - 1)

Sq(x) == x * x
Abs(x) == IF x < 0 THEN -x ELSE x

(* coordinate of cell i of n, in n-ths of the radius *)
Coord(i, n) == 2 * i - 1 - n

(* sub-cells of cell (i, j): centres in (n*m)-ths of the radius *)
CellCount(i, j, n, m) ==
    Cardinality({p \in (1..m) \X (1..m) :
        Sq(Coord((i - 1) * m + p[1], n * m)) + Sq(Coord((j - 1) * m + p[2], n * m)) <= Sq(n * m)})

(* a level: a row of sub-cells across the whole disc; lateral samples      *)
(* include both ends *)
LevelCount(j, n, m) ==
    Cardinality({p \in (0..(m - 1)) \X (1..m) :
        Sq((m - 1 - 2 * p[1]) * n * m) + Sq(Coord((j - 1) * m + p[2], n * m) * (m - 1)) <= Sq(n * m * (m - 1))})

(* list of <<lateral, vertical, weight>>, coordinates in n-ths of the radius *)
Design(kind, n, m) ==
    LET cells == [k \in 1..(n * n) |-> LET i == ((k - 1) \div n) + 1  j == ((k - 1) % n) + 1
                                      IN  <<Coord(i, n), Coord(j, n), IF kind = "gridraw" THEN 1 ELSE CellCount(i, j, n, m)>>]
        levels == [j \in 1..n |-> <<0, Coord(j, n), IF kind = "levelraw" THEN 1 ELSE LevelCount(j, n, m)>>]
        on(d) == d[3] > 0
    IN  CASE kind = "centre" -> << <<0, 0, 1>> >>
          [] kind \in {"grid", "gridraw"} -> SelectSeq(cells, on)
          [] kind \in {"level", "levelraw"} -> SelectSeq(levels, on)

Total(d) == SumTo(LAMBDA k : d[k][3], Len(d))
(* weighted sum of integer values *)
WSum(d, f(_)) == SumTo(LAMBDA k : d[k][3] * f(k), Len(d))

(* wake profiles over the distance from the centre line: a top hat and a   *)
(* parabola, in 1/Sq(L) *)
Profile(kind, L, r2) == IF kind = "hat" THEN (IF r2 < Sq(L) THEN Sq(L) ELSE 0)
                        ELSE IF r2 < Sq(L) THEN Sq(L) - r2 ELSE 0
=============================================================================
