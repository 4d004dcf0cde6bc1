---------------------------- MODULE AreaAlgebra ----------------------------
(***************************************************************************)
(* Design of the area classes: areas are stored as basic areas, unions     *)
(* (lists) and inverted areas; intersections and differences are expressed *)
(* through these, double inversion returns the original.  All expressions  *)
(* up to a number of operations denote the intended sets.                  *)
(* Bug: "nodemorgan" forgets to invert the members of an intersection,     *)
(* "nested" flattens inverted unions into unions.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxOps, Bug

U == 1..3
Atoms == <<{1, 2}, {2, 3}>>

VARIABLES stack, ops        \* stack of [rep, set]
vars == <<stack, ops>>

Atom(k) == [k |-> "atom", n |-> k, gs |-> <<>>]
Union(gs) == [k |-> "union", n |-> 0, gs |-> gs]
Inv(g) == IF g.k = "inv" THEN g.gs[1] ELSE [k |-> "inv", n |-> 0, gs |-> <<g>>]
Plus(g, h) == IF g.k = "union"
              THEN IF h.k = "union" \/ (Bug = "nested" /\ h.k = "inv" /\ h.gs[1].k = "union")
                   THEN Union(g.gs \o (IF h.k = "union" THEN h.gs ELSE h.gs[1].gs)) ELSE Union(Append(g.gs, h))
              ELSE IF h.k = "union" THEN Union(<<g>> \o h.gs) ELSE Union(<<g, h>>)
Inter(gs) == Inv(Union([i \in DOMAIN gs |-> IF Bug = "nodemorgan" THEN gs[i] ELSE Inv(gs[i])]))

RECURSIVE Den(_)
Den(g) == CASE g.k = "atom" -> Atoms[g.n]
            [] g.k = "union" -> UNION {Den(g.gs[i]) : i \in DOMAIN g.gs}
            [] g.k = "inv" -> U \ Den(g.gs[1])

Init == stack = <<>> /\ ops = 0
L == Len(stack)
Put(n, rep, set) == /\ L >= n
                    /\ stack' = Append(SubSeq(stack, 1, L - n), [rep |-> rep, set |-> set])
                    /\ ops' = ops + 1
Next == /\ ops < MaxOps
        /\ \/ /\ L < 3
              /\ \E k \in 1..2 : Put(0, Atom(k), Atoms[k])
           \/ L >= 1 /\ Put(1, Inv(stack[L].rep), U \ stack[L].set)
           \/ L >= 2 /\ Put(2, Plus(stack[L-1].rep, stack[L].rep), stack[L-1].set \cup stack[L].set)
           \/ L >= 2 /\ Put(2, Inter(<<stack[L-1].rep, Inv(stack[L].rep)>>), stack[L-1].set \ stack[L].set)
           \/ L >= 2 /\ Put(2, Inter(<<stack[L-1].rep, stack[L].rep>>), stack[L-1].set \cap stack[L].set)
Spec == Init /\ [][Next]_vars

Right == \A i \in DOMAIN stack : Den(stack[i].rep) = stack[i].set
=============================================================================
