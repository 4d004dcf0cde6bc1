----------------------------- MODULE LayoutOps -----------------------------
(***************************************************************************)
(* A farm layout is a sequence of turbines                                 *)
(*   [x, y, h, d, name, id, models]                                        *)
(* in units of 1/10 m; h, d = NONE if the turbine type decides.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE == -1
AUTO == "#auto"

RECURSIVE AddAll(_, _)
(* turbines without name or id get those of their position *)
Place(f, t) ==
    LET k == Len(f)
        id == IF t.id = NONE THEN k ELSE t.id
    IN  Append(f, [t EXCEPT !.id = id, !.name = IF t.name = AUTO THEN "T" \o ToString(id) ELSE t.name])
AddAll(f, ts) == IF ts = <<>> THEN f ELSE AddAll(Place(f, Head(ts)), Tail(ts))

At(seq, k, dflt) == IF seq = <<>> THEN dflt ELSE seq[k]

(* a: base, step, n, names, ids, h, d, models *)
Row(a) == [k \in 1..a.n |-> [x |-> a.base[1] + (k - 1) * a.step[1], y |-> a.base[2] + (k - 1) * a.step[2],
                             h |-> a.h, d |-> a.d, name |-> At(a.names, k, AUTO), id |-> At(a.ids, k, NONE), models |-> a.models]]
(* steps of both directions, the second one runs fastest *)
Grid(a) == [k \in 1..(a.n1 * a.n2) |->
              LET i == (k - 1) \div a.n2  j == (k - 1) % a.n2 IN
              [x |-> a.base[1] + i * a.v1[1] + j * a.v2[1], y |-> a.base[2] + i * a.v1[2] + j * a.v2[2],
               h |-> a.h, d |-> a.d, name |-> At(a.names, k, AUTO), id |-> At(a.ids, k, NONE), models |-> a.models]]
(* rows of a table: entries that are not given are NONE; turbines without  *)
(* a name column are called by base and row label *)
Table(a) == [k \in DOMAIN a.rows |->
               LET r == a.rows[k] IN
               [x |-> r.x, y |-> r.y, h |-> IF r.h = NONE THEN a.h ELSE r.h, d |-> IF r.d = NONE THEN a.d ELSE r.d,
                name |-> IF r.name = "#label" THEN a.nbase \o ToString(r.lab + a.shift) ELSE r.name, id |-> r.id, models |-> r.pre \o a.models \o r.post]]

Sq(x) == x * x
Dist2(p, q) == Sq(p.x - q.x) + Sq(p.y - q.y)
Abs(x) == IF x < 0 THEN -x ELSE x

Change(f, k, ms) == [f EXCEPT ![k].models = ms]
Insert(seq, k, m) == SubSeq(seq, 1, k) \o <<m>> \o SubSeq(seq, k + 1, Len(seq))
=============================================================================
