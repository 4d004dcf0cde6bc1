----------------------------- MODULE TypeTrace -----------------------------
(***************************************************************************)
(* Recorded evaluations of turbine types.  cfg lists the types with their  *)
(* tables and options; event eval lists, for every cell (state, turbine)   *)
(* the inputs and what was found afterwards; untouched cells keep what     *)
(* they had.                                                               *)
(*   type: kind "1d" | "2d" | "cp", xp,yp,xc,yc tables, zp,zc second       *)
(*         variable, rho (1: corrects density), dct (1: for thrust, too),  *)
(*         pP, pct (-1: no yaw correction), sp, sc scales, pn              *)
(***************************************************************************)
EXTENDS TraceRun, TypeOps

XInit(cfg) == [cfg |-> cfg]

Dist(x, y) == IF x > y THEN x - y ELSE y - x

Exp(T, c) ==
    LET d == IF T.rho = 1 THEN c.d ELSE 0
        yP == IF T.pP >= 0 THEN c.c ELSE 0
        yC == IF T.pct >= 0 THEN c.c ELSE 0
        eP == EqP(c.w3, d, yP, T.pP)
        eC == EqCt(c.w2, d, yC, T.pct, T.dct = 1)
    IN  CASE T.kind = "1d" -> <<Interp(T.xp, T.yp, eP, T.sp), Interp(T.xc, T.yc, eC, T.sp)>>
          [] T.kind = "2d" -> <<Interp2(T.xp, T.zp, T.yp, eP, c.z, T.sp, T.sz),
                                Interp2(T.xc, T.zc, T.yc, eC, c.z, T.sp, T.sz)>>
          [] T.kind = "cp" -> <<Interp(T.xp, T.yp, eP, T.sp) * eP * eP * eP, Interp(T.xc, T.yc, eC, T.sp)>>

Cell(s, e, c) ==
    IF c.sel = 0 THEN
        (IF c.P = c.P0 /\ c.ct = c.ct0 THEN {} ELSE {"a turbine or state that is not selected was changed, " \o e.how})
    ELSE LET T == s.cfg.types[c.type]  x == Exp(T, c) IN
        (IF (IF T.kind = "cp" THEN Dist(c.P, x[1]) <= x[1] \div 300 + 16 * T.sp ELSE c.P = x[1]) THEN {} ELSE {"the power is not that of the table, " \o T.name})
        \cup (IF c.ct = x[2] THEN {} ELSE {"the thrust is not that of the table, " \o T.name})

XViol(s, e) ==
    IF e.ok = 0 THEN {"evaluation failed: " \o e.err}
    ELSE CASE e.t = "eval" -> UNION {Cell(s, e, e.cells[k]) : k \in DOMAIN e.cells}
                \cup (IF e.keep = 1 THEN {} ELSE {"reported wind speeds or other inputs were altered, " \o e.how})
           [] e.t = "pnom" -> IF e.pn = s.cfg.types[e.type].pn THEN {} ELSE {"wrong nominal power"}
           [] e.t = "cutin" ->
                (* the modified table is zero at zero speed, never falls below cut-in and keeps the rest *)
                (IF e.rest = 1 THEN {} ELSE {"the table above cut-in was changed"})
                \cup (IF \A k \in 1..(Len(e.low) - 1) : e.low[k] <= e.low[k + 1] THEN {} ELSE {"the table below cut-in is not monotone"})
                \cup (IF e.smooth = 0 \/ (e.low[1] = 0 /\ \E k \in DOMAIN e.low : e.low[k] > 0 /\ e.low[k] < e.low[Len(e.low)])
                      THEN {} ELSE {"the table below cut-in was not smoothed"})

XApply(s, e) == s
XEnd(s) == {}
=============================================================================
