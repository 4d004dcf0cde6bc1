----------------------------- MODULE AreaTrace -----------------------------
(***************************************************************************)
(* Recorded queries of area objects.                                       *)
(*  inside: toks the expression, pts integer points, ins the answers (0/1),*)
(*          lo, hi  the reported bounds in 1/Q (big numbers for infinity)  *)
(*  dist:   shape index, pts, d distances in 1/Q, near nearest points 1/Q, *)
(*          dn distances reported together with the nearest points         *)
(***************************************************************************)
EXTENDS TraceRun, AreaSets

Q == 20
XInit(cfg) == [cfg |-> cfg, n |-> 0]

Toks(s, e, p) == [i \in DOMAIN e.toks |->
    [t |-> e.toks[i].t, n |-> e.toks[i].n, v |-> IF e.toks[i].t = "a" THEN Basic(s.cfg.shapes[e.toks[i].n], p) ELSE "-"]]
Value(s, e, p) == Eval(<<>>, Toks(s, e, p))

(* |sqrt(num/den) * Q - d| <= tol *)
Close(num, den, d, tol) == /\ Sq(d + tol) * den >= Q * Q * num
                           /\ (d > tol => Sq(d - tol) * den <= Q * Q * num)
AtLeast(num, den, d, tol) == d <= tol \/ Sq(d - tol) * den <= Q * Q * num

SegNum(a, b, p) == LET ab == Sub(b, a)  t == Dot(Sub(p, a), ab) IN
    IF t <= 0 THEN <<Dot(Sub(p, a), Sub(p, a)), 1>>
    ELSE IF t >= Dot(ab, ab) THEN <<Dot(Sub(p, b), Sub(p, b)), 1>>
    ELSE <<Sq(Cross(ab, Sub(p, a))), Dot(ab, ab)>>

TrueDist(sh, p, d) ==
    CASE sh.k = "half" -> Close(Sq(Dot(Sub(p, sh.c), sh.n)), Dot(sh.n, sh.n), d, 1)
      [] sh.k = "circle" -> LET v == Sub(p, sh.c)  m == Dot(v, v) IN
            IF m >= Sq(sh.r) THEN Close(m, 1, Q * sh.r + d, 1) ELSE Close(m, 1, Q * sh.r - d, 1)
      [] sh.k = "poly" ->
            LET S == {SegNum(Corner(sh, i), Corner(sh, i + 1), p) : i \in DOMAIN sh.pts} IN
            /\ \E x \in S : Close(x[1], x[2], d, 1)
            /\ \A x \in S : AtLeast(x[1], x[2], d, 1)

(* q (in 1/Q) lies on the boundary of the area, within one unit *)
OnBoundary(sh, q) ==
    CASE sh.k = "half" -> LET w == <<q[1] - Q * sh.c[1], q[2] - Q * sh.c[2]>> IN Sq(Dot(w, sh.n)) <= 2 * Dot(sh.n, sh.n)
      [] sh.k = "circle" -> LET w == <<q[1] - Q * sh.c[1], q[2] - Q * sh.c[2]>>  m == Dot(w, w) IN
            m >= Sq(Q * sh.r - 1) /\ m <= Sq(Q * sh.r + 1)
      [] sh.k = "poly" -> \E i \in DOMAIN sh.pts :
            LET a == <<Q * Corner(sh, i)[1], Q * Corner(sh, i)[2]>>
                b == <<Q * Corner(sh, i+1)[1], Q * Corner(sh, i+1)[2]>>
                ab == Sub(Corner(sh, i+1), Corner(sh, i))
                t == Dot(Sub(q, a), ab)
            IN \/ t >= -30 /\ t <= Q * Dot(ab, ab) + 30 /\ Sq(Cross(ab, Sub(q, a))) <= 2 * Dot(ab, ab)
               \/ Dot(Sub(q, a), Sub(q, a)) <= 2
NearOk(p, q, d) == LET w == <<q[1] - Q * p[1], q[2] - Q * p[2]>> IN
    /\ Dot(w, w) <= Sq(d + 2)
    /\ d > 2 => Dot(w, w) >= Sq(d - 2)

XViol(s, e) ==
    IF e.ok = 0 THEN {"area query failed: " \o e.err}
    ELSE IF e.t = "inside" THEN
        (IF \A i \in DOMAIN e.pts : LET v == Value(s, e, e.pts[i]) IN
                (v = "in" => e.ins[i] = 1) /\ (v = "out" => e.ins[i] = 0)
         THEN {} ELSE {"membership does not follow the set operations"})
        \cup (IF \A i \in DOMAIN e.pts : Value(s, e, e.pts[i]) = "in" =>
                    \A c \in 1..2 : e.lo[c] <= Q * e.pts[i][c] /\ Q * e.pts[i][c] <= e.hi[c]
              THEN {} ELSE {"the bounds do not enclose the area"})
    ELSE LET sh == s.cfg.shapes[e.sh] IN
        (IF \A i \in DOMAIN e.pts : TrueDist(sh, e.pts[i], e.d[i]) THEN {} ELSE {"wrong distance, " \o sh.k})
        \cup (IF e.d = e.dn THEN {} ELSE {"distance differs when the nearest point is asked for, " \o sh.k})
        \cup (IF \A i \in DOMAIN e.pts : OnBoundary(sh, e.near[i]) /\ NearOk(e.pts[i], e.near[i], e.d[i])
              THEN {} ELSE {"wrong nearest point, " \o sh.k})

XApply(s, e) == [s EXCEPT !.n = @ + 1]
XEnd(s) == {}
=============================================================================
