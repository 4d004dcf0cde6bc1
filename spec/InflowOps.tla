----------------------------- MODULE InflowOps -----------------------------
(***************************************************************************)
(* What inflow objects deliver.  Quantities are given at nodes of axes     *)
(* (heights, y, x) for every row of a table; an axis with one entry means  *)
(* that the quantity does not depend on it.  All numbers are integers:     *)
(* wind speeds in tenths, directions in degrees (multiples of 15),         *)
(* positions in units in which all nodes and queries are integers.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Dist(a, b) == IF a > b THEN a - b ELSE b - a
Least(a, b) == IF a < b THEN a ELSE b

RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

(* 10^4 sin of multiples of 15 degrees *)
Sin0(d) == CASE d = 0 -> 0 [] d = 15 -> 2588 [] d = 30 -> 5000 [] d = 45 -> 7071
             [] d = 60 -> 8660 [] d = 75 -> 9659 [] d = 90 -> 10000
SinD(deg) == LET d == deg % 360 IN
    CASE d <= 90 -> Sin0(d)
      [] d > 90 /\ d <= 180 -> Sin0(180 - d)
      [] d > 180 /\ d <= 270 -> -Sin0(d - 180)
      [] d > 270 -> -Sin0(360 - d)
CosD(deg) == SinD(deg + 90)

(* place of q on an axis: neighbouring entries and their weights *)
Locate(ax, q) ==
    LET n == Len(ax) IN
    IF n = 1 \/ q <= ax[1] THEN [lo |-> 1, hi |-> 1, a |-> 1, b |-> 0, g |-> 1]
    ELSE IF q >= ax[n] THEN [lo |-> n, hi |-> n, a |-> 1, b |-> 0, g |-> 1]
    ELSE LET k == CHOOSE k \in 1..(n - 1) : ax[k] <= q /\ q < ax[k + 1]
         IN  [lo |-> k, hi |-> k + 1, a |-> ax[k + 1] - q, b |-> q - ax[k], g |-> ax[k + 1] - ax[k]]

OffAxis(ax, q) == Len(ax) > 1 /\ (q < ax[1] \/ q > ax[Len(ax)])

(* weighted sum over the corners, F(ih, iy, ix); the scale is the product of the gaps *)
Corners(F(_, _, _), H, Y, X) ==
    LET along(f, h, y) == (IF X.a = 0 THEN 0 ELSE X.a * F(h, y, X.lo)) + (IF X.b = 0 THEN 0 ELSE X.b * F(h, y, X.hi))
        across(h) == (IF Y.a = 0 THEN 0 ELSE Y.a * along(0, h, Y.lo)) + (IF Y.b = 0 THEN 0 ELSE Y.b * along(0, h, Y.hi))
    IN  (IF H.a = 0 THEN 0 ELSE H.a * across(H.lo)) + (IF H.b = 0 THEN 0 ELSE H.b * across(H.hi))

Longer(a, b) == IF Len(a) > 1 THEN a ELSE b
At(t, i) == t[IF i > Len(t) THEN Len(t) ELSE i]

(* entry of a channel at a node; fixed values replace the table *)
Node(c, r, ih, iy, ix) == IF c.fix = 1 THEN c.fv ELSE At(At(At(c.t[r], ih), iy), ix)

(* scaled value of a scalar quantity: [v, g], the value is v/g *)
Scalar(c, r, p) ==
    LET H == Locate(c.ah, p[1])  Y == Locate(c.ay, p[2])  X == Locate(c.ax, p[3])
        F(ih, iy, ix) == Node(c, r, ih, iy, ix)
    IN  [v |-> Corners(F, H, Y, X), g |-> H.g * Y.g * X.g]

(* the same for a component of the wind (blowing from the direction), 10^4 times *)
Wind(cs, cd, r, p, comp) ==
    LET H == Locate(Longer(cs.ah, cd.ah), p[1])
        Y == Locate(Longer(cs.ay, cd.ay), p[2])
        X == Locate(Longer(cs.ax, cd.ax), p[3])
        F(ih, iy, ix) == LET s == Node(cs, r, ih, iy, ix)  d == Node(cd, r, ih, iy, ix)
                         IN  -s * (IF comp = "U" THEN SinD(d) ELSE CosD(d))
    IN  [v |-> Corners(F, H, Y, X), g |-> H.g * Y.g * X.g]

Outside(chans, p) == \E k \in DOMAIN chans :
    OffAxis(chans[k].ah, p[1]) \/ OffAxis(chans[k].ay, p[2]) \/ OffAxis(chans[k].ax, p[3])

(***************************************************************************)
(* Scans: all combinations, the last quantity runs fastest.                *)
(***************************************************************************)
RECURSIVE Times(_)
Times(q) == IF q = <<>> THEN 1 ELSE Len(Head(q)) * Times(Tail(q))
ScanRow(scan, i, r) ==
    LET inner == Times(SubSeq(scan, i + 1, Len(scan)))
    IN  scan[i][(((r - 1) \div inner) % Len(scan[i])) + 1]

(***************************************************************************)
(* Frequency tables: sf[i][j] for speed bin i and sector j, wf[j].  The    *)
(* states are the cells with positive frequency, speeds in the outer loop. *)
(***************************************************************************)
RECURSIVE CellsFrom(_, _, _)
CellsFrom(sf, wf, k) ==
    LET nj == Len(wf)  i == (k \div nj) + 1  j == (k % nj) + 1 IN
    IF k >= Len(sf) * nj THEN <<>>
    ELSE (IF sf[i][j] * wf[j] > 0 THEN << <<i, j>> >> ELSE <<>>) \o CellsFrom(sf, wf, k + 1)
Cells(sf, wf) == CellsFrom(sf, wf, 0)
ColSum(sf, j) == SumSeq([i \in DOMAIN sf |-> sf[i][j]])

(***************************************************************************)
(* Profiles.  Heights, reference heights and roughness are powers of two   *)
(* (exponents b, m, -a), the Obukhov length sg * 2^j.                      *)
(***************************************************************************)
Ln2 == 6931          (* 10^4 ln 2 *)
(* stability functions times 10^4 at height over length 2^d *)
PsiStable(d) == -(IF d >= 0 THEN 50000 ELSE 50000 \div Pow2(-d))
PsiUnstable(d) ==
    CASE d = -7 -> 301 [] d = -6 -> 581 [] d = -5 -> 1092 [] d = -4 -> 1966 [] d = -3 -> 3341
      [] d = -2 -> 5319 [] d = -1 -> 7934 [] d = 0 -> 11162 [] d = 1 -> 14947 [] d = 2 -> 19218
Psi(r, b) == CASE r.sg = 0 -> 0 [] r.sg = 1 -> PsiStable(b - r.j) [] r.sg = -1 -> PsiUnstable(b - r.j)
LogPart(r, b) == (IF b + r.a > 0 THEN (b + r.a) * Ln2 ELSE 0) - Psi(r, b)

(* power law with exponent sh2/2, reference speed in tenths; result [v, g] *)
Power(r, b) == LET n == ((b - r.m) * r.sh2) \div 2
               IN  IF n >= 0 THEN [v |-> r.ws * Pow2(n), g |-> 1] ELSE [v |-> r.ws, g |-> Pow2(-n)]

(* is got (hundredths) the wind speed of the profile at height 2^b *)
ProfileOk(kind, r, b, got) ==
    CASE kind = "shear" -> LET w == Power(r, b) IN Dist(got * w.g, 10 * w.v) <= w.g
      [] kind = "log" -> LET n == LogPart(r, b)  d == LogPart(r, r.m)
                         IN  Dist(got * d, 10 * r.ws * n) <= d + 20 * r.ws
      [] kind = "ustar" -> (* ws: friction velocity over kappa *)
                           Dist(got * 1000, r.ws * LogPart(r, b)) <= 1000 + 4 * r.ws
=============================================================================
