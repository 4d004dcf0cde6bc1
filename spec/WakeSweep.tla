----------------------------- MODULE WakeSweep -----------------------------
(***************************************************************************)
(* The single-pass evaluation: turbines are visited in downwind order;     *)
(* each is evaluated with the wakes collected so far and then passes its   *)
(* own wake on to those behind it.  The second part evaluates all at once  *)
(* and repeats this until nothing changes.                                 *)
(***************************************************************************)
EXTENDS CausalOps

CONSTANTS N, MaxX, Bug

VARIABLES pos, order, k, acc, op, it, prev

vars == <<pos, order, k, acc, op, it, prev>>

M == <<[kind |-> "chain", var |-> "V", dir |-> 1, step |-> 1, mult |-> 1], [kind |-> "count", var |-> "C", dir |-> 1, step |-> 1, mult |-> 1]>>
Wind == <<1, 0>>
P(x) == [t \in DOMAIN x |-> <<x[t], 0>>]

Orders(x) == {o \in [1..N -> 1..N] : /\ \A i, j \in 1..N : i # j => o[i] # o[j]
                                     /\ \A i, j \in 1..N : i < j => x[o[i]] <= x[o[j]]}

Init == /\ pos \in [1..N -> 0..MaxX]
        /\ order \in Orders(pos)
        /\ k = 1
        /\ acc = [t \in 1..N |-> [chain |-> 0, count |-> 0]]
        /\ op = [t \in 1..N |-> [chain |-> 0, count |-> 0]]
        /\ it = 0
        /\ prev = op

Behind(i) == {j \in 1..N : IF Bug = "next" THEN j = i + 1 ELSE IF Bug = "self" THEN j >= i ELSE j > i}
Touch(s, t) == IF Bug = "self" THEN pos[t] >= pos[s] ELSE pos[t] > pos[s]

Add(a, s, t, v) == IF ~Touch(s, t) THEN a
                   ELSE [chain |-> IF v.chain + 1 > a.chain THEN v.chain + 1 ELSE a.chain, count |-> a.count + Pow4[s - 1]]

Visit ==
    /\ it = 0 /\ k <= N
    /\ LET s == order[k]
           early == op[s]
           now == acc[s]
           pass == IF Bug = "stale" THEN early ELSE now
       IN  /\ op' = [op EXCEPT ![s] = now]
           /\ acc' = [t \in 1..N |-> IF \E j \in Behind(k) : order[j] = t THEN Add(acc[t], s, t, pass) ELSE acc[t]]
    /\ k' = k + 1
    /\ UNCHANGED <<pos, order, it, prev>>

(* from the ambient values, everything at once *)
RECURSIVE Gather(_, _, _)
Gather(a, t, S) == IF S = {} THEN a ELSE LET s == CHOOSE s \in S : TRUE IN Gather(Add(a, s, t, prev[s]), t, S \ {s})
Round ==
    /\ k = N + 1
    /\ LET new == [t \in 1..N |-> Gather([chain |-> 0, count |-> 0], t, 1..N \ {t})]
       IN  /\ it' = IF new = prev /\ it > 0 THEN 100 ELSE it + 1
           /\ prev' = new
    /\ it < 100
    /\ UNCHANGED <<pos, order, k, acc, op>>

Next == Visit \/ Round
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Want(t) == [chain |-> AtOnce(M, "V", P(pos), Wind, 0)[t], count |-> Arrives(M[2], P(pos), Wind, <<pos[t], 0>>, <<>>)]
SinglePassRight == k = N + 1 => \A t \in 1..N : op[t] = Want(t)
(* the repeated evaluation ends with the values of the single pass *)
SameFixedPoint == it = 100 => prev = op
SettlesSoon == it < 100 => it <= N + 1
Settles == <>(it = 100)
=============================================================================
