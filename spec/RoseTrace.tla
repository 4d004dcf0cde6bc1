----------------------------- MODULE RoseTrace -----------------------------
(***************************************************************************)
(* Recorded wind roses, slices and point outputs.                          *)
(*  rose   n, b, wd, ws, w, kind: freq|weights|mean_no_weights|            *)
(*         sum_no_weights, var, sc; got: cells (freq: ten times per cent;  *)
(*         sums and means: sc times), centres (n * 100 * degrees),         *)
(*         bars: <<sector, class, 10 height, 10 bottom>> of a figure       *)
(*  slice  ori, dir, mean, sel, w, fields (name and coefficients), turb    *)
(*         (positions), lo/hi/n/res/at/space, axes a and b, got            *)
(*  points pts per state, mean, got                                        *)
(***************************************************************************)
EXTENDS TraceRun, RoseOps

XInit(cfg) == [k |-> 0]

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol

One(s) == 1

WantCell(e, i, j) ==
    LET W(s) == e.w[s]  V(s) == e.var[s]  WV(s) == e.w[s] * e.var[s] IN
    CASE e.kind = "freq" -> <<Cell(e, i, j, W), 1>>
      [] e.kind = "weights" -> <<Cell(e, i, j, WV), Cell(e, i, j, W)>>
      [] e.kind = "mean_no_weights" -> <<Cell(e, i, j, V), Cell(e, i, j, One)>>
      [] e.kind = "sum_no_weights" -> <<Cell(e, i, j, V), 1>>

CellOk(e, i, j) ==
    LET q == WantCell(e, i, j)  g == e.got[i + 1][j] IN
    IF q[2] = 0 THEN g = EMPTY ELSE g # EMPTY /\ Near(g * q[2], q[1] * e.sc, q[2])

(* bars drawn for sector i and class j: as high as the frequency, on top of the classes below *)
RECURSIVE Below(_, _, _)
Below(e, i, j) == IF j = 0 THEN 0 ELSE e.got[i + 1][j] + Below(e, i, j - 1)
Bars(e) ==
    \/ e.bars = <<>>
    \/ /\ Len(e.bars) = e.n * (Len(e.b) - 1)
       /\ \A i \in 0..e.n - 1 : \A j \in 1..Len(e.b) - 1 :
            \E k \in DOMAIN e.bars :
                LET r == e.bars[k] IN r[1] = i /\ r[2] = j /\ Near(r[3], e.got[i + 1][j], 1) /\ Near(r[4], Below(e, i, j - 1), j)

Rose(e) ==
    IF Len(e.got) # e.n \/ \E i \in DOMAIN e.got : Len(e.got[i]) # Len(e.b) - 1 THEN {"wind rose has not the requested sectors and classes"}
    ELSE
    (IF e.centres = [i \in 1..e.n |-> 36000 * (i - 1)] THEN {} ELSE {"sectors are not centred at multiples of their width"})
    \cup (IF e.edges = e.b THEN {} ELSE {"classes are not the requested ones"})
    \cup (IF Ambiguous(e) \/ \A i \in 0..e.n - 1 : \A j \in 1..Len(e.b) - 1 : CellOk(e, i, j) THEN {}
          ELSE {"rose cell is not made of the states in it: " \o e.kind})
    \cup (IF e.kind # "freq" THEN {}
          ELSE LET P(s) == \E j \in 1..Len(e.b) - 1 : InClass(e.ws[s], e.b, j)
                   W(s) == e.w[s]
                   all == [k \in 1..e.n * (Len(e.b) - 1) |-> e.got[((k - 1) % e.n) + 1][((k - 1) \div e.n) + 1]]
                   A(k) == all[k]
                   T(k) == TRUE
               IN IF Near(SumF(T, A, Len(all)), SumF(P, W, Len(e.w)) * e.sc, 5) THEN {} ELSE {"frequencies do not add up to the total weight"})
    \cup (IF Bars(e) THEN {} ELSE {"figure does not show the frequencies"})

(***************************************************************************)
Bound(e, k, auto) == IF e.given[k] = 1 THEN e.bounds[k] ELSE auto

Span(e, lo, hi, n) == IF e.res = 0 THEN n ELSE (2 * (hi - lo) + e.res) \div (2 * e.res) + 1

Grid(e) ==
    LET Q == {e.turb[k] : k \in DOMAIN e.turb}
        X == {Along(e.dir, q) : q \in Q}  Y == {Across(e.dir, q) : q \in Q}  H == {q[3] : q \in Q}
        A == IF e.ori = "yz" THEN Y ELSE X
        B == IF e.ori = "xy" THEN Y ELSE H
        C == CASE e.ori = "xy" -> H [] e.ori = "xz" -> Y [] e.ori = "yz" -> X
        alo == Bound(e, 1, Least(A) - e.space[1])
        ahi == Bound(e, 2, Most(A) + e.space[1])
        blo == Bound(e, 3, IF e.ori = "xy" THEN Least(B) - e.space[2] ELSE Least({0, Least(B) - e.space[2]}))
        bhi == Bound(e, 4, Most(B) + e.space[2])
    IN  [a |-> Nodes(alo, ahi, Span(e, alo, ahi, e.num[1])),
         b |-> Nodes(blo, bhi, Span(e, blo, bhi, e.num[2])),
         c2 |-> IF e.given[5] = 1 THEN 2 * e.bounds[5] ELSE Least(C) + Most(C)]

NodeAt(e, g, i, j) ==
    CASE e.ori = "xy" -> Point(270, g.a[i], g.b[j], g.c2 \div 2)
      [] e.ori = "xz" -> Point(e.dir, g.a[i], g.c2 \div 2, g.b[j])
      [] e.ori = "yz" -> Point(e.dir, g.c2 \div 2, g.a[i], g.b[j])

Clip(q, lo, hi, d) ==
    LET x == IF lo # EMPTY /\ q < lo * d THEN lo * d ELSE q IN IF hi # EMPTY /\ x > hi * d THEN hi * d ELSE x


Lim(x, n) == IF x = EMPTY THEN EMPTY ELSE x * n
VOk(e, f, n, d, got) ==
    Near(got * (d * f.norm), 100 * Clip(n, Lim(f.lo, f.norm), Lim(f.hi, f.norm), d), e.tol * (d * f.norm))

MeanAt(e, f, p) == <<WFsum(e.sel, e.w, f, p, Len(e.sel)), Wsum(e.sel, e.w, p, Len(e.sel))>>

Sliced(e) ==
    LET g == Grid(e) IN
    IF e.rows # (IF e.mean = 1 THEN 1 ELSE Len(e.sel)) THEN {"slice has not one field per selected state"}
    ELSE IF e.coords = 1 /\ (e.a # [k \in DOMAIN g.a |-> 1000 * g.a[k]] \/ e.b # [k \in DOMAIN g.b |-> 1000 * g.b[k]] \/ e.c # 500 * g.c2)
    THEN {"slice is not on the requested grid: " \o e.ori}
    ELSE IF \E k \in DOMAIN e.got : \E r \in DOMAIN e.got[k] : Len(e.got[k][r]) # Len(g.a) \/ \E i \in DOMAIN g.a : Len(e.got[k][r][i]) # Len(g.b)
    THEN {"slice has not the requested number of nodes"}
    ELSE IF e.states # e.sel THEN {"slice is not for the selected states"}
    ELSE {"slice value is not that of the point calculation: " \o e.how \o ", " \o e.ori :
          k \in {k \in DOMAIN e.got : \E r \in 1..e.rows : \E i \in DOMAIN g.a : \E j \in DOMAIN g.b :
                LET p == NodeAt(e, g, i, j)  f == e.fields[k]
                    q == IF e.mean = 1 THEN MeanAt(e, f, p) ELSE <<Field(f, e.sel[r] - 1, p), 1>>
                IN ~VOk(e, f, q[1], q[2], e.got[k][r][i][j])}}

Pointed(e) ==
    IF e.rows # (IF e.mean = 1 THEN 1 ELSE Len(e.sel)) THEN {"point output has not one row per state"}
    ELSE {"point output is not the flow at the points: " \o e.how :
          k \in {k \in DOMAIN e.got : \E r \in 1..e.rows : \E i \in DOMAIN e.pts[1] :
                LET f == e.fields[k]
                    F(s) == e.wt[e.sel[s]] * Field(f, e.sel[s] - 1, e.pts[s][i])
                    W(s) == e.wt[e.sel[s]]
                    T(s) == TRUE
                    q == IF e.mean = 1 THEN <<SumF(T, F, Len(e.sel)), SumF(T, W, Len(e.sel))>> ELSE <<Field(f, e.sel[r] - 1, e.pts[r][i]), 1>>
                IN ~VOk(e, f, q[1], q[2], e.got[k][r][i])}}

XViol(s, e) ==
    IF e.ok = 0 THEN {"output failed: " \o e.t \o " " \o e.how \o ", " \o e.err}
    ELSE (CASE e.t = "rose" -> Rose(e) [] e.t = "slice" -> Sliced(e) [] e.t = "points" -> Pointed(e))
         \cup (IF e.args = 1 THEN {} ELSE {"output changed the given results: " \o e.t})

XApply(s, e) == [k |-> s.k + 1]
XEnd(s) == {}
=============================================================================
