------------------------------ MODULE RoseOps ------------------------------
(***************************************************************************)
(* Wind roses and flow slices over integer data.                           *)
(* Directions are in hundredths of a degree, speeds and class edges in     *)
(* tenths, weights are integers.  Sector i (0..n-1) is centred at          *)
(* i * 360 / n degrees and wraps across north; classes are half open,      *)
(* the last one includes its upper edge; INF as last edge is no limit.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

INF == 1000000
EMPTY == -2000000000

Sector(wd, n) == ((2 * wd * n + 36000) \div 72000) % n

(* sector edges that floating point numbers do not represent *)
OnEdge(wd, n) == (2 * wd * n + 36000) % 72000 = 0
Edges(n) == \E k \in {1, 2, 4, 8, 16, 32, 64} : (360 * k) % n = 0
Sectors(wd, n) ==
    IF OnEdge(wd, n) /\ ~Edges(n) THEN {Sector(wd, n), (Sector(wd, n) + n - 1) % n} ELSE {Sector(wd, n)}

InClass(ws, b, j) ==
    /\ b[j] <= ws
    /\ ws < b[j + 1] \/ (j + 1 = Len(b) /\ ws = b[j + 1]) \/ b[j + 1] = INF

RECURSIVE SumF(_, _, _)
SumF(P(_), F(_), k) == IF k = 0 THEN 0 ELSE (IF P(k) THEN F(k) ELSE 0) + SumF(P, F, k - 1)

(* sum of F over the states in sector i and class j of rose r *)
Cell(r, i, j, F(_)) ==
    LET P(s) == Sector(r.wd[s], r.n) = i /\ InClass(r.ws[s], r.b, j) IN SumF(P, F, Len(r.wd))

Ambiguous(r) == \E s \in DOMAIN r.wd : OnEdge(r.wd[s], r.n) /\ ~Edges(r.n)

(***************************************************************************)
(* Slices.  The calculated flow is the integer field                       *)
(*   Field(f, s, x, y, z) = f.c + f.s * s + f.x * x + f.y * y + f.z * z    *)
(***************************************************************************)
Field(f, s, p) == f.c + f.s * s + f.x * p[1] + f.y * p[2] + f.z * p[3]

(* axes of a slice with wind direction d of its x axis (multiples of 90) *)
AxisX(d) == CASE d = 0 -> <<0, -1>> [] d = 90 -> <<-1, 0>> [] d = 180 -> <<0, 1>> [] d = 270 -> <<1, 0>>
AxisY(d) == LET x == AxisX(d) IN <<-x[2], x[1]>>

(* point with coordinates u along the x axis, v across, h above ground *)
Point(d, u, v, h) ==
    LET X == AxisX(d) Y == AxisY(d) IN <<u * X[1] + v * Y[1], u * X[2] + v * Y[2], h>>

Along(d, q) == q[1] * AxisX(d)[1] + q[2] * AxisX(d)[2]
Across(d, q) == q[1] * AxisY(d)[1] + q[2] * AxisY(d)[2]

Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Most(S) == CHOOSE a \in S : \A b \in S : a >= b

(* nodes from lo to hi *)
Nodes(lo, hi, n) == [k \in 1..n |-> IF n = 1 THEN lo ELSE lo + ((k - 1) * (hi - lo)) \div (n - 1)]

(* weights of a state depend on the side of the line x = 0 *)
Weight(w, s, p) == IF p[1] < 0 THEN w[s][1] ELSE w[s][2]

RECURSIVE Wsum(_, _, _, _)
Wsum(sel, w, p, k) == IF k = 0 THEN 0 ELSE Weight(w, sel[k], p) + Wsum(sel, w, p, k - 1)
RECURSIVE WFsum(_, _, _, _, _)
WFsum(sel, w, f, p, k) == IF k = 0 THEN 0 ELSE Weight(w, sel[k], p) * Field(f, sel[k] - 1, p) + WFsum(sel, w, f, p, k - 1)
=============================================================================
