--------------------------- MODULE WakeFormTrace ----------------------------
(***************************************************************************)
(* Recorded wakes of one single turbine in a uniform flow.                 *)
(* cfg.kind: "ws" (wind deficit behind the rotor), "ti" (turbulence added  *)
(*      behind the rotor), "ind" (induction in front of the rotor).        *)
(* cfg.flat: 1 if only horizontal motion is modelled                       *)
(* Values are millionths of the ambient wind, or of one for turbulence.    *)
(* Events:                                                                 *)
(*   cross  v[d][i]: ring i (outwards) at the same distance behind the     *)
(*          rotor, in four directions d: left, right, up, down             *)
(*   axis   v along the axis at x (eighths of the diameter)              *)
(*   pair   a, b: the axis values of the wake and of a variant, rel tells  *)
(*          how they must compare                                          *)
(*   flux   v: wind deficits on rings (ten thousandths) at radius (2i-1) half  *)
(*          ring widths; ct thousandths; w: ring widths per diameter       *)
(*   top    the deficits of top-hat wakes (thousandths) along the axis; k  *)
(*          in percent, start: the deficit right behind the rotor          *)
(*   yaw    a, b: profile across the wake from left to right for opposite  *)
(*          misalignments; side: where the wake must move to               *)
(***************************************************************************)
EXTENDS TraceRun

XInit(cfg) == [cfg |-> cfg, n |-> 0]
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
RECURSIVE Total(_, _)
Total(s, k) == IF k = 0 THEN 0 ELSE s[k] + Total(s, k - 1)
Sum(s) == Total(s, Len(s))

Cross(s, e) ==
    (IF \A d \in DOMAIN e.v : \A i \in DOMAIN e.v[d] : Near(e.v[d][i], e.v[1][i], IF s.cfg.flat = 1 THEN 2 + e.v[1][i] \div 30 ELSE 2) THEN {} ELSE {"the wake is not symmetric about its axis"})
    \cup (IF \A d \in DOMAIN e.v : \A i \in DOMAIN e.v[d] : e.v[d][i] >= -1 THEN {} ELSE {"the effect has the wrong sign"})
    \cup (IF s.cfg.kind = "ti" \/ (\A d \in DOMAIN e.v : \A i \in DOMAIN e.v[d] : e.v[d][i] <= 1000001) THEN {} ELSE {"the air moves backwards"})
    \cup (IF \A d \in DOMAIN e.v : \A i \in DOMAIN e.v[d] : (i > 1) => e.v[d][i] <= e.v[d][i - 1] + 1 THEN {} ELSE {"the effect grows with the distance from the axis"})
    \cup (IF \A d \in DOMAIN e.v : 2 * e.v[d][Len(e.v[d])] <= e.v[d][1] + 1 THEN {} ELSE {"the effect does not end outside of the wake"})
    \cup (IF e.v[1][1] > 0 THEN {} ELSE {"no effect at the axis"})

Axis(s, e) == LET D == DOMAIN e.x IN
    IF s.cfg.kind = "ind" THEN
        (IF \A i \in D : (e.x[i] < 0) => e.v[i] > 0 THEN {} ELSE {"the flow in front of the rotor is not slowed down"})
        \cup (IF \A i \in D : (e.x[i] < 0 /\ i > 1) => e.v[i] >= e.v[i - 1] - 1 /\ (e.v[i] > 500 => e.v[i] > e.v[i - 1]) THEN {} ELSE {"the effect does not fall with the distance in front of the rotor"})
        \cup (IF \A i \in D : (e.x[i] = -4) => 2 * e.v[1] < e.v[i] THEN {} ELSE {"the effect does not end far in front of the rotor"})
    ELSE
        (IF \A i \in D : (e.x[i] <= 0) => e.v[i] = 0 THEN {} ELSE {"there is a wake in front of the rotor"})
        \cup (IF \A i \in D : (e.x[i] > 0) => e.v[i] > 0 THEN {} ELSE {"no effect behind the rotor"})
        \cup (IF s.cfg.kind = "ti" \/ (\A i \in D : e.v[i] <= 1000001) THEN {} ELSE {"the air moves backwards"})
        \cup (IF \A i \in D : (e.x[i] > 1) => e.v[i] <= e.v[i - 1] + 1 THEN {} ELSE {"the wake does not recover downstream"})

Pair(s, e) == LET D == DOMAIN e.a IN
    CASE e.rel = "same" -> IF \A i \in D : Near(e.a[i], e.b[i], 2) \/ (e.a[i] > 999900 /\ e.b[i] > 999900) THEN {} ELSE {"the wake changes with " \o e.what}
      [] e.rel = "less" -> IF (\A i \in D : e.b[i] <= e.a[i] + 1) /\ (\E i \in D : e.b[i] < e.a[i]) THEN {} ELSE {"the wake is not weaker with " \o e.what}
      [] e.rel = "more" -> IF (\A i \in D : e.b[i] >= e.a[i] - 1) /\ (\E i \in D : e.b[i] > e.a[i]) THEN {} ELSE {"the effect is not stronger with " \o e.what}
      [] e.rel = "ends" -> IF (\A i \in {1, Len(e.a)} : e.b[i] > e.a[i]) THEN {} ELSE {"the effect is not stronger with " \o e.what}
      [] e.rel = "atleast" -> IF \A i \in D : e.b[i] >= e.a[i] - 1 THEN {} ELSE {"the effect is weaker with " \o e.what}
      [] e.rel = "twice" -> IF \A i \in D : Near(2 * e.a[i], e.b[i], 4) THEN {} ELSE {"the effect is not doubled by " \o e.what}
      [] OTHER -> {"unknown relation"}

(* sum over rings of d (1 - d) times the area of the ring equals ct/8 of  *)
(* the squared diameter: with w rings per diameter the ring i has the area *)
(* pi (2i-1) / w^2, so the sum of d (1 - d) (2i-1) is ct w^2 / 8           *)
Flux(e) == LET m == Sum([i \in DOMAIN e.v |-> ((e.v[i] * (10000 - e.v[i])) \div 1000) * (2 * i - 1)])
               t == (e.ct * 100 * e.w * e.w) \div 8
           IN IF Near(m, t, t \div 40 + 1000) THEN {} ELSE {"the momentum lost in the wake is not the thrust"}

Top(e) == IF \A i \in DOMAIN e.v : (e.x[i] > 0) =>
                LET q == ((400 + e.k * e.x[i]) * (400 + e.k * e.x[i])) \div 16 IN Near(e.v[i] * q, e.start * 10000, 2 * q + 10000)
          THEN {} ELSE {"the flow missing in the wake changes downstream"}

Yaw(e) == LET n == Len(e.a)
              M(v) == Sum([i \in DOMAIN v |-> (2 * i - n - 1) * (v[i] \div 10)]) IN
    (IF \A i \in DOMAIN e.a : Near(e.a[i], e.b[n + 1 - i], 4) THEN {} ELSE {"opposite misalignments do not give mirrored wakes"})
    \cup (IF M(e.a) * e.side > 0 \/ (e.hat = 1 /\ M(e.a) = 0) THEN {} ELSE {"the wake is not deflected to the side where the rotor pushes it"})

XViol(s, e) ==
    CASE e.t = "cross" -> Cross(s, e)
      [] e.t = "axis" -> Axis(s, e)
      [] e.t = "pair" -> Pair(s, e)
      [] e.t = "flux" -> Flux(e)
      [] e.t = "top" -> Top(e)
      [] e.t = "yaw" -> Yaw(e)
      [] e.t = "fail" -> {"the calculation failed: " \o e.err}
      [] OTHER -> {"unknown event"}

XApply(s, e) == [s EXCEPT !.n = @ + 1]
XEnd(s) == IF s.n = 0 THEN {"nothing recorded"} ELSE {}
=============================================================================
