----------------------------- MODULE DiscTrace -----------------------------
(***************************************************************************)
(* Recorded rotor points, rotor averages and partial wakes.                *)
(*   pts   kind, n, m; pts: <<axial, lateral, vertical>> in n-ths of the   *)
(*         radius about the hub, w: weights in 10^-5, tol                  *)
(*   avg   a field given at the points: ws, dir (quarter turns), ti, rho   *)
(*         integers, yaw: 2 cos of the angle between direction and rotor   *)
(*         axis per point; found: r1 = 1000 REWS, r2 = 100 REWS2^2,        *)
(*         r3 = 10 REWS3^3, ti, rho (1000), wd = 1000 (sin, cos)           *)
(*   wake  a wake with a profile behind a single turbine, found: the       *)
(*         average over the rotor of a second one, in 10^-4                *)
(***************************************************************************)
EXTENDS TraceRun, DiscOps

XInit(cfg) == [cfg |-> cfg]

Near(a, b, tol) == Abs(a - b) <= tol

Pts(e) ==
    LET d == Design(e.kind, e.n, e.m)  W == Total(d)
    IN  (IF Len(e.pts) # Len(d) THEN {"wrong number of points, " \o e.kind}
         ELSE (IF \A k \in DOMAIN d : e.pts[k] = <<0, d[k][1], d[k][2]>> THEN {} ELSE {"points are not on the rotor, " \o e.what})
              \cup (IF \A k \in DOMAIN d : Near(e.w[k], (d[k][3] * 100000) \div W, e.tol) THEN {} ELSE {"wrong weights, " \o e.kind}))
        \cup (IF Near(SumTo(LAMBDA k : e.w[k], Len(e.w)), 100000, Len(e.w) + 1) THEN {} ELSE {"weights do not sum to one, " \o e.kind})

DirU(q) == <<0, 1, 0, -1>>[q + 1]
DirV(q) == <<1, 0, -1, 0>>[q + 1]

Avg(e) ==
    LET d == Design(e.kind, e.n, e.m)  W == Total(d)
        p(k) == e.ws[k] * e.yaw[k]                       \* twice the projected speed
        sgn(x) == IF x < 0 THEN -1 ELSE 1
        pos(x) == IF x < 0 THEN 0 ELSE x
        S1 == pos(WSum(d, p))
        S2 == pos(WSum(d, LAMBDA k : sgn(p(k)) * Sq(p(k))))
        S3 == pos(WSum(d, LAMBDA k : p(k) * Sq(p(k))))
        T  == WSum(d, LAMBDA k : e.ti[k])
        R  == WSum(d, LAMBDA k : e.rho[k])
        U  == WSum(d, LAMBDA k : e.ws[k] * DirU(e.dir[k]))
        V  == WSum(d, LAMBDA k : e.ws[k] * DirV(e.dir[k]))
    IN  (IF Near(2 * e.r1 * W, 1000 * S1, 3 * W) THEN {} ELSE {"REWS is not the average of the projected speed, " \o e.what})
        \cup (IF Near(4 * e.r2 * W, 100 * S2, 5 * W) THEN {} ELSE {"REWS2 is not the square average, " \o e.what})
        \cup (IF Near(8 * e.r3 * W, 10 * S3, 9 * W) THEN {} ELSE {"REWS3 is not the cubic average, " \o e.what})
        \cup (IF Near(e.ti1 * W, 1000 * T, 2 * W) /\ Near(e.r * W, 1000 * R, 2 * W) THEN {} ELSE {"a scalar is not averaged with the weights, " \o e.what})
        \cup (IF U = 0 /\ V = 0 THEN {}
              ELSE IF Near(U * e.wd[2], V * e.wd[1], 2 * (Abs(U) + Abs(V))) /\ U * e.wd[1] + V * e.wd[2] > 0 THEN {}
              ELSE {"the wind direction is not that of the average wind vector, " \o e.what})

(* average of a profile over the target's disc of radius R, shifted; points *)
(* on the edge of a top hat may count (incl = 1) or not *)
OverDisc(e, off, incl) ==
    LET d == Design(IF e.exact = 1 THEN e.kind ELSE "grid", IF e.exact = 1 THEN e.n ELSE 32, IF e.exact = 1 THEN e.m ELSE 1)
        n == IF e.exact = 1 THEN e.n ELSE 32
        \* lengths in n-ths
        r2(k) == Sq(off[1] * n + e.R * d[k][1]) + Sq(off[2] * n + e.R * d[k][2])
        W == Total(d)
        \* in thousandths, without overflow
        full == Sq(e.L * n)
        g == IF full < 2000000 THEN 1 ELSE 100
        v(k) == IF e.prof = "hat" THEN (IF r2(k) < full + incl THEN 1000 ELSE 0)
                ELSE (1000 * (Profile(e.prof, e.L * n, r2(k)) \div g)) \div (full \div g)
    IN  (10 * WSum(d, v)) \div W

Wake(e) ==
    LET lo == SumTo(LAMBDA k : OverDisc(e, e.off[k], 0), Len(e.off))
        hi == SumTo(LAMBDA k : OverDisc(e, e.off[k], 1), Len(e.off))
    IN  IF e.f >= lo - e.tol /\ e.f <= hi + e.tol THEN {} ELSE {"partial wake is not the average over the rotor, " \o e.scheme \o e.mix}

XViol(s, e) ==
    IF e.ok = 0 THEN {"evaluation failed: " \o e.err}
    ELSE CASE e.t = "pts" -> Pts(e) [] e.t = "avg" -> Avg(e) [] e.t = "wake" -> Wake(e)

XApply(s, e) == s
XEnd(s) == {}
=============================================================================
