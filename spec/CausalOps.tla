----------------------------- MODULE CausalOps -----------------------------
(***************************************************************************)
(* Which wakes reach which turbine, and with which operating point.        *)
(* A model m is [kind, var, dir, step, mult]:                              *)
(*   kind "count"  every wake that arrives adds mult * step * 4^(i-1),     *)
(*                 i the number of the turbine that causes it              *)
(*   kind "chain"  the wakes that arrive give the largest of the values    *)
(*                 var + step of the turbines that cause them              *)
(*   dir           1: acts downstream, -1: upstream                        *)
(* w: direction into which the wind blows (integers)                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Proj(w, p) == (w[1] * p[1]) + (w[2] * p[2])

(* the turbines whose wakes reach a place *)
Reach(pos, w, p, dir) == {s \in DOMAIN pos : dir * (Proj(w, p) - Proj(w, pos[s])) > 0}

MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

Pow4[n \in 0..10] == IF n = 0 THEN 1 ELSE 4 * Pow4[n - 1]

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumOver(f, S \ {i})

(* what one model does at a place, V: the values of the turbines *)
Arrives(m, pos, w, p, V) ==
    LET R == Reach(pos, w, p, m.dir) IN
    IF m.kind = "count" THEN m.mult * m.step * SumOver([s \in DOMAIN pos |-> Pow4[s - 1]], R)
    ELSE MaxOf({0} \cup {V[s] + m.step : s \in R})

OfVar(ms, v) == {j \in DOMAIN ms : ms[j].var = v}
Total(ms, J, pos, w, p, V) == SumOver([j \in J |-> Arrives(ms[j], pos, w, p, V)], J)

(* values of the turbines that agree with the wakes they cause *)
Settle(ms, J, pos, w, B, k) ==
    LET RECURSIVE It(_, _)
        It(V, n) == IF n = 0 THEN V
                    ELSE It(TLCEval([t \in DOMAIN pos |-> B[t] + Total(ms, J, pos, w, pos[t], V)]), n - 1)
    IN  It(B, k)

(* all models at once *)
AtOnce(ms, v, pos, w, amb) == Settle(ms, OfVar(ms, v), pos, w, TLCEval([t \in DOMAIN pos |-> amb]), Len(pos))

(* one model after another, each with the operating points found so far *)
RECURSIVE OneByOne(_, _, _, _, _, _)
OneByOne(ms, v, pos, w, B, j) ==
    IF j > Len(ms) THEN B
    ELSE OneByOne(ms, v, pos, w, IF ms[j].var = v THEN TLCEval(Settle(ms, {j}, pos, w, B, Len(pos))) ELSE B, j + 1)
=============================================================================
