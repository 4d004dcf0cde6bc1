------------------------------- MODULE IterOps ------------------------------
(* When two successive results agree within limits; angles are compared on  *)
(* the circle.  Numbers are scaled integers; Slack covers their rounding.   *)
EXTENDS Integers, Sequences

AbsI(x) == IF x < 0 THEN -x ELSE x
Delta(a, b, full) == IF full = 0 THEN AbsI(b - a)
                     ELSE LET m == (b - a) % full IN IF m > full - m THEN full - m ELSE m

(* crits: sequence of [v |-> variable, lim |-> limit, full |-> circle or 0] *)
Within(prev, cur, c, slack) ==
    \A s \in DOMAIN cur[c.v] : \A t \in DOMAIN cur[c.v][s] :
        Delta(prev[c.v][s][t], cur[c.v][s][t], c.full) <= c.lim + slack
Agree(prev, cur, crits, slack) == \A k \in DOMAIN crits : Within(prev, cur, crits[k], slack)

(* under-relaxed value, relaxation u of 4 *)
RelaxedOk(prev, new, out, u, slack) == AbsI(4 * out - (u * prev + (4 - u) * new)) <= 4 * slack
=============================================================================
