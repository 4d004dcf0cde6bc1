------------------------------ MODULE RuleOps ------------------------------
(***************************************************************************)
(* Rule models: what one model does to one cell (state, turbine).  A cell  *)
(* is a record of variables with integer values (64 times the value where  *)
(* a scale applies); NONE is an unset value.                               *)
(***************************************************************************)
EXTENDS TypeOps

NONE == -99999999

RECURSIVE Fold(_, _, _)
Fold(f(_, _), acc, seq) == IF seq = <<>> THEN acc ELSE Fold(f, f(acc, Head(seq)), Tail(seq))

InRange(v, lo, hi, per) ==
    IF per = 0 THEN lo <= v /\ v < hi
    ELSE IF hi - lo >= per THEN TRUE
    ELSE LET x == v % per  a == lo % per  b == hi % per
         IN  IF b < a THEN x >= a \/ x < b ELSE a <= x /\ x < b

SetVars(m, s, t, c) ==
    LET idx(v) == CHOOSE k \in DOMAIN m.vars : m.vars[k] = v
        cov(v) == \E k \in DOMAIN m.vars : m.vars[k] = v /\ m.data[k][s][t] # NONE
    IN  [v \in DOMAIN c |-> IF cov(v) THEN m.data[idx(v)][s][t] ELSE c[v]]

(* the rules of a table in their order; each covers one turbine *)
Sector(m, s, t, c) ==
    LET hit(r) == r.t = t /\ \A k \in DOMAIN m.rv : InRange(c[m.rv[k]], r.lo[k], r.hi[k], m.per[k])
        idx(v) == CHOOSE k \in DOMAIN m.tv : m.tv[k] = v
        one(cell, r) == IF ~hit(r) THEN cell
                        ELSE [v \in DOMAIN cell |-> IF \E k \in DOMAIN m.tv : m.tv[k] = v THEN r.val[idx(v)] ELSE cell[v]]
    IN  Fold(one, c, m.rows)

Factors(m, s, t, c) ==
    LET f == Interp2(m.xs, m.zs, m.tab, c[m.x], c[m.z], 256, 256)   \* 65536 times the factor
    IN  [v \in DOMAIN c |-> IF \E k \in DOMAIN m.out : m.out[k] = v THEN (c[v] \div 64) * (f \div 1024) ELSE c[v]]

Lookup1(m, s, t, c) ==
    [v \in DOMAIN c |-> IF \E k \in DOMAIN m.out : m.out[k] = v
                        THEN Interp(m.xs, m.tab[CHOOSE k \in DOMAIN m.out : m.out[k] = v], c[m.x], 256) \div 4 ELSE c[v]]
Lookup2(m, s, t, c) ==
    [v \in DOMAIN c |-> IF \E k \in DOMAIN m.out : m.out[k] = v
                        THEN Interp2(m.xs, m.zs, m.tab[CHOOSE k \in DOMAIN m.out : m.out[k] = v], c[m.x], c[m.z], 256, 256) \div 1024 ELSE c[v]]

Growth(m, s, t, c) ==
    LET kti == IF m.kti = NONE THEN c["kTI"] ELSE m.kti
        kb  == m.kb
        ti  == IF m.ti = NONE THEN c[m.tiv] ELSE m.ti
    IN  [c EXCEPT ![m.out] = (kti \div 64) * ti + kb]

(* thrust per half rotor area, unit density *)
Thrust(m, s, t, c) == [c EXCEPT !["ct"] = (c["T"] \div 64) * ((64 * 4096) \div (c[m.ws] * c[m.ws]))]

(* shortest turn from wind direction to yaw; turns of half a circle excluded *)
Turn(a, b) == LET d == (b - a) % (360 * 64) IN IF d > 180 * 64 THEN d - 360 * 64 ELSE d
ToYaw(m, s, t, c)  == [c EXCEPT !["YAW"] = (c["WD"] + c["YAWM"]) % (360 * 64)]
ToYawm(m, s, t, c) == [c EXCEPT !["YAWM"] = Turn(c["WD"], c["YAW"])]

(* power g(a) = a (1-a)^2 with a = i/60; the thrust code of i is ct 3600/4 *)
G(i) == i * (60 - i) * (60 - i)
Mask(m, s, t, c) ==
    LET rated == m.rated[t]  p == c["P"]  mx == c["MAXP"]
        on == mx # NONE /\ ((mx < rated /\ p > mx) \/ (mx > rated /\ p > rated - m.lim))
    IN  IF ~on THEN c
        ELSE LET j == CHOOSE j \in 1..20 : G(j) * 64 = mx IN [c EXCEPT !["P"] = mx, !["ct"] = 64 * j * (60 - j)]

Sum2(m, s, t, c) == [c EXCEPT ![m.out] = c[m.a] + 2 * c[m.b] + 192]

Apply1(m, s, t, c) ==
    CASE m.kind = "set"    -> SetVars(m, s, t, c)
      [] m.kind = "sector" -> Sector(m, s, t, c)
      [] m.kind = "fac"    -> Factors(m, s, t, c)
      [] m.kind = "look1"  -> Lookup1(m, s, t, c)
      [] m.kind = "look2"  -> Lookup2(m, s, t, c)
      [] m.kind = "kti"    -> Growth(m, s, t, c)
      [] m.kind = "thrust" -> Thrust(m, s, t, c)
      [] m.kind = "yaw"    -> ToYaw(m, s, t, c)
      [] m.kind = "yawm"   -> ToYawm(m, s, t, c)
      [] m.kind = "mask"   -> Mask(m, s, t, c)
      [] m.kind = "calc"   -> Sum2(m, s, t, c)

(* the cell after the models of turbine t in state s *)
RunCell(models, s, t, c0) ==
    LET one(c, m) == IF m.sel[s][t] = 1 THEN Apply1(m, s, t, c) ELSE c IN Fold(one, c0, models)
=============================================================================
