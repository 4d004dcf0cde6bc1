------------------------------ MODULE EvalOps ------------------------------
(***************************************************************************)
(* Reductions of integer tables x[s][t] with integer weights w[s][t].      *)
(* All results are exact integers: weighted sums stand for W times the     *)
(* weighted mean, "mean" for the sum over n values (n times the mean) and  *)
(* "std" for n^2 times the variance.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE q[1] + SumSeq(Tail(q))
MinSeq(q) == CHOOSE x \in {q[k] : k \in DOMAIN q} : \A k \in DOMAIN q : x <= q[k]
MaxSeq(q) == CHOOSE x \in {q[k] : k \in DOMAIN q} : \A k \in DOMAIN q : x >= q[k]
SumF(f, n) == SumSeq([k \in 1..n |-> f[k]])

Column(x, t) == [s \in DOMAIN x |-> x[s][t]]

(* reduction of a sequence with weights *)
Reduce(op, q, w) ==
    CASE op = "weights" -> SumSeq([k \in DOMAIN q |-> w[k] * q[k]])
      [] op = "mean_no_weights" -> SumSeq(q)
      [] op = "sum" -> SumSeq(q)
      [] op = "min" -> MinSeq(q)
      [] op = "max" -> MaxSeq(q)
      [] op = "std" -> Len(q) * SumSeq([k \in DOMAIN q |-> q[k] * q[k]]) - SumSeq(q) * SumSeq(q)

States(op, x, w) == [t \in DOMAIN x[1] |-> Reduce(op, Column(x, t), Column(w, t))]
Turbines(op, x, w) == [s \in DOMAIN x |-> Reduce(op, x[s], w[s])]
All(sop, top, x, w) == Reduce(top, States(sop, x, w), w[1])
=============================================================================
