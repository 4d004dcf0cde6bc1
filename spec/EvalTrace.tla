----------------------------- MODULE EvalTrace -----------------------------
(***************************************************************************)
(* Recorded evaluations of farm results.                                   *)
(* cfg: x (variable -> table), w (weights [s][t]), wsum, punit (per        *)
(*      turbine), pnom, secs (duration of a series in half hours, or 0)    *)
(* Results are scaled to integers by the recorder, see EvalOps; -1000001   *)
(* stands for a value that is not an integer.                              *)
(* Every event lists the variables of the results that it altered (chg)    *)
(* and added (new).                                                        *)
(***************************************************************************)
EXTENDS TraceRun, EvalOps

XInit(cfg) == [cfg |-> cfg, n |-> 0]

NT(s) == Len(s.cfg.w[1])
NS(s) == Len(s.cfg.w)
Pow(s, e) == s.cfg.x[e.var]
Low(a, b) == IF a < b THEN a ELSE b

Tot(s, v) == SumSeq(States("weights", s.cfg.x[v], s.cfg.w))

(* energy: weighted power times hours times the unit *)
Hours2(s, e) == IF e.annual = 1 THEN 2 * 8760 ELSE IF s.cfg.secs > 0 THEN s.cfg.secs + e.extra ELSE 2 * e.hours
Yield(s, e) == LET m == States("weights", s.cfg.x[e.var], s.cfg.w) IN [t \in DOMAIN m |-> m[t] * Hours2(s, e) * s.cfg.punit[t]]

Eff(s, i, t) == LET p == s.cfg.x["P"][i][t]  q == s.cfg.x["AMB_P"][i][t] IN
    IF p = 0 THEN 0 ELSE IF q = 0 THEN 2520 ELSE (Low(p, q) * 2520) \div q

(* weighted sums over the states that are complete, the weights of the others moved to them *)
Other(s, e, i, t) == IF e.op = "" THEN 1 ELSE s.cfg.x[e.op][i][t]
Gaps(s, e) == [t \in 1..NT(s) |->
    SumSeq([i \in 1..NS(s) |-> s.cfg.w[i][t]])
    * SumSeq([k \in DOMAIN e.keep |-> s.cfg.w[e.keep[k]][t] * Pow(s, e)[e.keep[k]][t] * Other(s, e, e.keep[k], t)])]

Want(s, e) ==
    CASE e.t = "states" -> States(e.op, Pow(s, e), s.cfg.w)
      [] e.t = "turbines" -> Turbines(e.op, Pow(s, e), s.cfg.w)
      [] e.t = "all" -> <<All(e.op, e.top, Pow(s, e), s.cfg.w)>>
      [] e.t = "power" -> <<Tot(s, e.var)>>
      [] e.t = "yield" -> Yield(s, e)
      [] e.t = "farmyield" -> <<SumSeq(Yield(s, e))>>
      [] e.t = "uncert" -> LET y == SumSeq(Yield(s, e)) IN
            <<y * 10000, y * (10000 - 675 * e.u), y * (10000 - 1282 * e.u)>>
      [] e.t = "capacity" -> [k \in 1..(NS(s) * NT(s)) |->
            LET i == ((k - 1) \div NT(s)) + 1  t == ((k - 1) % NT(s)) + 1
            IN (Pow(s, e)[i][t] * 30000) \div s.cfg.pnom[t]]
      [] e.t = "efficiency" -> [k \in 1..(NS(s) * NT(s)) |-> Eff(s, ((k - 1) \div NT(s)) + 1, ((k - 1) % NT(s)) + 1)]
      [] e.t = "farmeff" -> <<IF Tot(s, "AMB_P") = 0 THEN (IF Tot(s, "P") = 0 THEN 0 ELSE 1) ELSE Low(Tot(s, "P"), Tot(s, "AMB_P"))>>
      [] e.t = "gaps" -> Gaps(s, e)
      [] e.t = "nan" -> <<1>>
      [] e.t = "table" -> [k \in 1..(NS(s) * NT(s)) |-> Pow(s, e)[((k - 1) \div NT(s)) + 1][((k - 1) % NT(s)) + 1]]

New(e) == CASE e.t = "capacity" -> IF e.var = "P" THEN <<"CAP">> ELSE <<"AMB_CAP">>
            [] e.t = "efficiency" -> <<"EFF">>
            [] OTHER -> <<>>
What(e) == e.t \o (IF e.t \in {"states", "turbines", "all"} THEN " " \o e.op ELSE "") \o (IF e.t = "all" THEN " " \o e.top ELSE "")

XViol(s, e) ==
    (IF e.ok = 0 THEN {What(e) \o " failed: " \o e.err}
     ELSE IF e.res = Want(s, e) THEN {} ELSE {"not the defined reduction: " \o What(e)})
    \cup (IF e.chg = <<>> THEN {} ELSE {What(e) \o " altered the results"})
    \cup (IF e.ok = 0 \/ {e.new[k] : k \in DOMAIN e.new} = {New(e)[k] : k \in DOMAIN New(e)} THEN {}
          ELSE {What(e) \o " added other than the announced quantity"})

XApply(s, e) == [s EXCEPT !.n = @ + 1]
XEnd(s) == IF s.n = 0 THEN {"nothing evaluated"} ELSE {}
=============================================================================
