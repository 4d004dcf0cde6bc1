------------------------------ MODULE TypeOps ------------------------------
(***************************************************************************)
(* Power and thrust tables.  Speeds are integers in a fine unit, table     *)
(* speeds are multiples of it; values are compared times a scale that      *)
(* makes all interpolated values integers.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)
Shift(w, k) == IF k >= 0 THEN w * Pow2(k) ELSE w \div Pow2(-k)

(* scale * linear interpolation of ys over xs at e; nothing outside *)
Interp(xs, ys, e, scale) ==
    LET hit == {k \in DOMAIN xs : xs[k] = e}
        seg == {k \in 1..(Len(xs) - 1) : xs[k] < e /\ e < xs[k + 1]}
    IN  IF hit # {} THEN scale * ys[CHOOSE k \in hit : TRUE]
        ELSE IF seg = {} THEN 0
        ELSE LET k == CHOOSE k \in seg : TRUE
             IN  scale * ys[k] + (ys[k + 1] - ys[k]) * (e - xs[k]) * (scale \div (xs[k + 1] - xs[k]))

Inside(xs, e) == xs[1] <= e /\ e <= xs[Len(xs)]

(* the same over two variables; rows follow xs, columns zs; sx*sz scale *)
Interp2(xs, zs, rows, e, z, sx, sz) ==
    IF ~Inside(xs, e) \/ ~Inside(zs, z) THEN 0
    ELSE LET col == [k \in DOMAIN xs |-> Interp(zs, rows[k], z, sz)]
         IN  Interp(xs, col, e, sx)

(* wind speed equivalent: w times the factors of density and yaw.          *)
(* d: the reference density is 64^d times the density; c: the cosine of    *)
(* the yaw misalignment is 2^-c; exponents as documented: density^(1/3)    *)
(* for power (and ^(1/2) for the thrust of turbulence tables), cosine to   *)
(* p/3 and p/2.                                                            *)
EqP(w, d, c, pP) == Shift(w, 2 * d - (c * pP) \div 3)
EqCt(w, d, c, pct, dens) == Shift(w, (IF dens THEN 3 * d ELSE 0) - (c * pct) \div 2)
=============================================================================
