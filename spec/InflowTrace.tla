---------------------------- MODULE InflowTrace ----------------------------
(***************************************************************************)
(* Recorded inflow of calculations.  cfg: src "tab" | "scan" | "freq",     *)
(* chans (name, fix, fv, axes, table), sel (selected source rows), labels  *)
(* (ids of the source rows), oob "err" | "edge", pos (positions per state  *)
(* and point), wk weights: "uni" | "given" (w, 10^-6) | "freq" | "rel",    *)
(* scan, sf, wf, norm, prof (kind, one record per source row).             *)
(***************************************************************************)
EXTENDS TraceRun, InflowOps

XInit(cfg) == [cfg |-> cfg, done |-> 0]

NRows(s) == CASE s.cfg.src = "scan" -> Times(s.cfg.scan)
              [] s.cfg.src = "freq" -> Len(Cells(s.cfg.sf, s.cfg.wf))
              [] OTHER -> Len(s.cfg.sel)
Row(s, k) == IF s.cfg.src = "tab" THEN s.cfg.sel[k] ELSE k

(* channels with tables as the source defines them *)
Filled(s, k) ==
    LET c == s.cfg.chans[k] IN
    CASE s.cfg.src = "scan" /\ c.fix = 0 ->
            [c EXCEPT !.t = [r \in 1..NRows(s) |-> << << <<ScanRow(s.cfg.scan, k, r)>> >> >>]]
      [] s.cfg.src = "freq" /\ c.fix = 0 /\ c.n \in {"WS", "WD"} ->
            LET cells == Cells(s.cfg.sf, s.cfg.wf) IN
            [c EXCEPT !.t = [r \in 1..Len(cells) |->
                << << <<IF c.n = "WS" THEN s.cfg.mid[cells[r][1]] ELSE s.cfg.dir[cells[r][2]]>> >> >>]]
      [] OTHER -> c

Find(s, n) == CHOOSE k \in DOMAIN s.cfg.chans : s.cfg.chans[k].n = n

Outs(s) == \E k \in DOMAIN s.cfg.pos : \E p \in DOMAIN s.cfg.pos[k] : Outside(s.cfg.chans, s.cfg.pos[k][p])

ValOk(s, e, k, p) ==
    LET pos == s.cfg.pos[k][p]  r == Row(s, k)  got == e.got[k][p] IN
    IF e.c \in {"U", "V"}
    THEN LET w == Wind(Filled(s, Find(s, "WS")), Filled(s, Find(s, "WD")), r, pos, e.c)
         IN  Dist(got, w.v \div w.g) <= 250
    ELSE LET w == Scalar(Filled(s, Find(s, e.c)), r, pos)
         IN  Dist(got * w.g, 10 * w.v) <= w.g

WeightOk(s, e, k) ==
    LET n == NRows(s)  r == Row(s, k)  got == e.got[k] IN
    CASE s.cfg.wk = "uni" -> Dist(got * n, 1000000) <= n
      [] s.cfg.wk = "given" -> Dist(got, s.cfg.w[r]) <= 1
      [] s.cfg.wk = "freq" ->
            LET c == Cells(s.cfg.sf, s.cfg.wf)[r]  x == s.cfg.sf[c[1]][c[2]] * s.cfg.wf[c[2]] IN
            IF s.cfg.norm = 1
            THEN LET g == SumSeq(s.cfg.wf) * ColSum(s.cfg.sf, c[2]) IN Dist(got * g, x * 1000000) <= g
            ELSE Dist(got, x * 10) <= 1

XViol(s, e) ==
    CASE e.t = "run" ->
            IF e.ok = 0 THEN (IF s.cfg.oob = "err" /\ Outs(s) THEN {} ELSE {"the inflow failed within its range: " \o e.err})
            ELSE (IF s.cfg.oob = "err" /\ Outs(s) THEN {"values outside the range of the data were made up"} ELSE {})
      [] e.t = "size" -> (IF e.n = NRows(s) THEN {} ELSE {"wrong number of states"})
      [] e.t = "label" -> IF \A k \in DOMAIN e.got : e.got[k] = s.cfg.labels[Row(s, k)] THEN {} ELSE {"states lost their labels"}
      [] e.t = "weight" -> IF \A k \in DOMAIN e.got : WeightOk(s, e, k) THEN {} ELSE {"wrong weights, " \o s.cfg.wk}
      [] e.t = "wsum" -> IF s.cfg.wk = "uni" /\ Dist(e.got, 1000000) > 1 THEN {"uniform weights do not sum to one"} ELSE {}
      [] e.t = "val" -> IF \A k \in DOMAIN e.got : \A p \in DOMAIN e.got[k] : ValOk(s, e, k, p)
                        THEN {} ELSE {"not the tabulated value: " \o e.c}
      [] e.t = "prof" -> IF \A k \in DOMAIN e.got : \A p \in DOMAIN e.got[k] :
                               ProfileOk(s.cfg.prof.kind, s.cfg.prof.rows[Row(s, k)], s.cfg.pos[k][p][4], e.got[k][p])
                         THEN {} ELSE {"not the wind speed of the profile"}
      [] e.t = "wrel" -> (* weights of places proportional to the interpolated frequency *)
            IF \A k \in DOMAIN e.got : \A p \in DOMAIN e.got[k] :
                    LET w == Scalar(s.cfg.chans[Find(s, "f")], e.sec[k], s.cfg.pos[k][p])
                    IN  Dist(e.got[k][p] * w.g, e.fac[k] * w.v) <= w.g * (2 + (w.v \div w.g))
            THEN {} ELSE {"weights are not those of the frequencies"}

XApply(s, e) == IF e.t = "run" THEN [s EXCEPT !.done = 1] ELSE s
XEnd(s) == IF s.done = 1 THEN {} ELSE {"no outcome"}
=============================================================================
