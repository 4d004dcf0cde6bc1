----------------------------- MODULE WriteTrace -----------------------------
(***************************************************************************)
(* Recorded writing and reading of result files.                           *)
(* cfg: the table of the results (see WriteOps), numeric: its numeric      *)
(* variables, digest: of the results as given                              *)
(*   write  path, kind ("csv", "nc"), the request q; ok, digest (results   *)
(*          afterwards), args (1: the arguments are as given)              *)
(*   read   path and what it holds: cols (sequence of [col, vals]),        *)
(*          states, turbines (labels per row, or per axis for nc),         *)
(*          si, ti: names of the index columns or dimensions               *)
(***************************************************************************)
EXTENDS TraceRun, WriteOps

XInit(cfg) == [tb |-> cfg.tb, numeric |-> cfg.numeric, digest |-> cfg.digest, files |-> <<>>, labels |-> cfg.tags]

Content(s, e) ==
    LET tb == Sub(s.tb, e.q)  q == e.q  nc == e.kind = "nc" IN
    [nc |-> nc, q |-> q, wide |-> q.wide = 1,
     cols |-> IF q.wide = 1 THEN Wide(tb, q, IF q.names = 1 THEN [t \in DOMAIN tb.names |-> "_" \o tb.names[t]] ELSE s.labels) ELSE Long(tb, q),
     si |-> Name(q, "state"),
     ti |-> IF q.names = 1 /\ ~nc THEN "tname" ELSE Name(q, "turbine"),
     states |-> IF nc \/ q.wide = 1 THEN tb.states ELSE [k \in 1..Rows(tb) |-> tb.states[Row(tb, k)[1]]],
     turbines |-> LET lab == IF q.names = 1 THEN tb.names ELSE tb.turbines
                  IN  IF q.wide = 1 THEN <<>> ELSE IF nc THEN lab ELSE [k \in 1..Rows(tb) |-> lab[Row(tb, k)[2]]]]

(* the columns found: those wanted, in their order *)
Wanted(f) == {f.cols[i].col : i \in DOMAIN f.cols}
Found(f, e) == SelectSeq(e.cols, LAMBDA c : c.col \in Wanted(f))

Numeric(s, f, i) == f.cols[i].var \in {s.numeric[k] : k \in DOMAIN s.numeric}
DigitsOf(f, i) == IF f.wide THEN LET c == Name(f.q, f.cols[i].var) IN Lookup(f.q.fmt, c, Default(c)) ELSE Digits(f.q, f.cols[i].col, f.nc)

Reading(s, e) ==
    LET f == Lookup(s.files, e.path, [cols |-> <<>>])
        g == Found(f, e)
        w == e.kind \o (IF f.wide THEN ", wide" ELSE "") \o (IF f.q.names = 1 THEN ", names" ELSE "")
    IN  (IF [i \in DOMAIN g |-> g[i].col] = [i \in DOMAIN f.cols |-> f.cols[i].col] THEN {} ELSE {"columns of the file (" \o w \o ")"})
        \cup {"values of the file (" \o w \o ")" : i \in {i \in DOMAIN f.cols \cap DOMAIN g :
              \/ Len(f.cols[i].vals) # Len(g[i].vals)
              \/ \E k \in DOMAIN g[i].vals : ~Same(f.cols[i].vals[k], g[i].vals[k], DigitsOf(f, i), Numeric(s, f, i))}}
        \cup (IF f.si = e.si THEN {} ELSE {"name of the states (" \o w \o ")"})
        \cup (IF f.wide \/ f.ti = e.ti THEN {} ELSE {"name of the turbines (" \o w \o ")"})
        \cup (IF f.states = e.states THEN {} ELSE {"states of the file (" \o w \o ")"})
        \cup (IF f.turbines = e.turbines THEN {} ELSE {"turbines of the file (" \o w \o ")"})

XViol(s, e) ==
    IF e.ok = 0 THEN {e.t \o " failed (" \o e.kind \o "): " \o e.err}
    ELSE CASE e.t = "write" -> (IF e.digest = s.digest THEN {} ELSE {"results altered by writing (" \o e.kind \o ")"})
                               \cup (IF e.args = 1 THEN {} ELSE {"arguments altered by writing (" \o e.kind \o ")"})
           [] e.t = "read" -> Reading(s, e)

XApply(s, e) == IF e.t = "write" /\ e.ok = 1 THEN [s EXCEPT !.files = Append(@, <<e.path, Content(s, e)>>)] ELSE s
XEnd(s) == {}
=============================================================================
