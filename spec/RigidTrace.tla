----------------------------- MODULE RigidTrace -----------------------------
(***************************************************************************)
(* Recorded runs of a farm that is moved rigidly step by step, with the    *)
(* wind turning along.  Each event relates to the one before.              *)
(* event: move [dx, dy]  shift in dm, applied after the turn               *)
(*        turn [a, b, c, ang]  clockwise turn with cos = a/c, sin = b/c,   *)
(*             ang in 1e-5 degrees;  ctr  centre of the turn in dm         *)
(*        xy   positions in dm as reported;  cells[s][t] value ids of the  *)
(*             results other than coordinates and directions               *)
(*        wd   [v][s][t] directions in 1e-5 degrees, -1 where undefined    *)
(*        pcells, pwd  the same for points that move along                 *)
(***************************************************************************)
EXTENDS TraceRun

Full == 36000000
XInit(cfg) == [n |-> 0, turned |-> FALSE, last |-> cfg]

AbsI(x) == IF x < 0 THEN -x ELSE x
Circ(x) == LET m == x % Full IN IF m > Full - m THEN Full - m ELSE m
SameDir(a, b, ang) == IF a < 0 \/ b < 0 THEN a = b ELSE Circ(b - a - ang) <= 3

Moved(p, q, e) ==
    LET x == p[1] - e.ctr[1]
        y == p[2] - e.ctr[2]
        u == q[1] - e.ctr[1] - e.move[1]
        v == q[2] - e.ctr[2] - e.move[2]
        c == e.turn[3]
    IN  AbsI(u * c - (e.turn[1] * x + e.turn[2] * y)) <= 3 * c
        /\ AbsI(v * c - (e.turn[1] * y - e.turn[2] * x)) <= 3 * c

Dirs(a, b, ang) == \A v \in DOMAIN a : \A s \in DOMAIN a[v] : \A t \in DOMAIN a[v][s] : SameDir(a[v][s][t], b[v][s][t], ang)

XViol(s, e) ==
    IF e.ok = 0 THEN {"calculation failed: " \o e.err}
    ELSE IF s.n = 0 THEN {}
    ELSE (IF \A t \in DOMAIN e.xy : Moved(s.last.xy[t], e.xy[t], e) THEN {} ELSE {"the reported positions did not move along"})
         \cup (IF e.cells = s.last.cells THEN {} ELSE {"results of turbines change when farm and wind are moved rigidly"})
         \cup (IF Dirs(s.last.wd, e.wd, e.turn[4]) THEN {} ELSE {"directions at turbines do not turn with the farm"})
         \cup (IF e.pcells = s.last.pcells THEN {} ELSE {"results at points change when farm and wind are moved rigidly"})
         \cup (IF Dirs(s.last.pwd, e.pwd, e.turn[4]) THEN {} ELSE {"directions at points do not turn with the farm"})

XApply(s, e) == IF e.ok = 0 THEN s
                ELSE [n |-> s.n + 1, turned |-> s.turned \/ e.turn[4] # 0, last |-> e]
XEnd(s) == IF s.n < 2 \/ ~s.turned THEN {"nothing was compared"} ELSE {}
=============================================================================
