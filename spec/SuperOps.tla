------------------------------ MODULE SuperOps ------------------------------
(***************************************************************************)
(* Wake superposition over the integers.  A contribution c of a source is  *)
(* scaled by sc; the accumulated effect is                                 *)
(*   sum   sum of sc*c                                                     *)
(*   pow   sum of |sc*c|^p      (its p-th root is the effect)              *)
(*   max   maximum of |sc*c|, or 0                                         *)
(*   tmax  maximum of c, or 0   (turbulence)                               *)
(*   prod  product of (1+c), minus one                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
Larger(a, b) == IF a > b THEN a ELSE b

Neutral == 0
Combine(op, p, acc, x) ==
    CASE op = "sum" -> acc + x
      [] op = "pow" -> acc + Pow(Abs(x), p)
      [] op \in {"max", "tmax"} -> Larger(acc, Abs(x))
      [] op = "prod" -> (1 + acc) * (1 + x) - 1

RECURSIVE Fold(_, _, _)
Fold(op, p, xs) == IF xs = <<>> THEN Neutral
                   ELSE Combine(op, p, Fold(op, p, SubSeq(xs, 1, Len(xs) - 1)), xs[Len(xs)])
=============================================================================
