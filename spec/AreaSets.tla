------------------------------ MODULE AreaSets ------------------------------
(***************************************************************************)
(* Exact membership and distances of basic areas with integer parameters,  *)
(* and the set algebra of area expressions in reverse Polish notation.     *)
(* Membership is "in", "out" or "edge" (on a boundary, either is right).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
Sq(x) == x * x

HalfPlane(sh, p) == LET x == Dot(Sub(p, sh.c), sh.n) IN
    IF x > 0 THEN "in" ELSE IF x < 0 THEN "out" ELSE "edge"

Circle(sh, p) == LET d == Sub(p, sh.c)  m == Dot(d, d) IN
    IF m < Sq(sh.r) THEN "in" ELSE IF m > Sq(sh.r) THEN "out" ELSE "edge"

Corner(sh, i) == sh.pts[IF i > Len(sh.pts) THEN 1 ELSE i]
OnSegment(a, b, p) == /\ Cross(Sub(b, a), Sub(p, a)) = 0
                      /\ Dot(Sub(p, a), Sub(p, b)) <= 0
(* does the edge a-b cross the ray from p in positive x direction? *)
Crosses(a, b, p) ==
    \/ a[2] <= p[2] /\ b[2] > p[2] /\ Cross(Sub(b, a), Sub(p, a)) > 0
    \/ b[2] <= p[2] /\ a[2] > p[2] /\ Cross(Sub(a, b), Sub(p, b)) > 0
Polygon(sh, p) ==
    IF \E i \in DOMAIN sh.pts : OnSegment(Corner(sh, i), Corner(sh, i + 1), p) THEN "edge"
    ELSE IF Cardinality({i \in DOMAIN sh.pts : Crosses(Corner(sh, i), Corner(sh, i + 1), p)}) % 2 = 1 THEN "in"
    ELSE "out"

Basic(sh, p) == CASE sh.k = "half" -> HalfPlane(sh, p)
                  [] sh.k = "circle" -> Circle(sh, p)
                  [] sh.k = "poly" -> Polygon(sh, p)

Not3(a) == IF a = "in" THEN "out" ELSE IF a = "out" THEN "in" ELSE "edge"
Or3(a, b) == IF a = "in" \/ b = "in" THEN "in" ELSE IF a = "out" /\ b = "out" THEN "out" ELSE "edge"
And3(a, b) == Not3(Or3(Not3(a), Not3(b)))
RECURSIVE Any3(_), All3(_)
Any3(xs) == IF xs = <<>> THEN "out" ELSE Or3(Head(xs), Any3(Tail(xs)))
All3(xs) == IF xs = <<>> THEN "in" ELSE And3(Head(xs), All3(Tail(xs)))

(* tokens: [t |-> "a", n |-> k]  the k-th basic area;  "inv";              *)
(* "+", "-"  union and difference of the two topmost;                      *)
(* "u", "i"  union, intersection of the n topmost;                         *)
(* "+l", "-l"  union, difference of an area and the list of the n topmost  *)
RECURSIVE Eval(_, _)
Eval(stack, toks) ==
    IF toks = <<>> THEN stack[Len(stack)]
    ELSE LET t == Head(toks)
             L == Len(stack)
             top(n) == SubSeq(stack, L - n + 1, L)
             cut(n) == SubSeq(stack, 1, L - n)
             nxt == CASE t.t = "a" -> Append(stack, t.v)
                      [] t.t = "inv" -> Append(cut(1), Not3(stack[L]))
                      [] t.t = "+" -> Append(cut(2), Or3(stack[L - 1], stack[L]))
                      [] t.t = "-" -> Append(cut(2), And3(stack[L - 1], Not3(stack[L])))
                      [] t.t = "u" -> Append(cut(t.n), Any3(top(t.n)))
                      [] t.t = "i" -> Append(cut(t.n), All3(top(t.n)))
                      [] t.t = "+l" -> Append(cut(t.n + 1), Or3(stack[L - t.n], Any3(top(t.n))))
                      [] t.t = "-l" -> Append(cut(t.n + 1), And3(stack[L - t.n], Not3(Any3(top(t.n)))))
         IN Eval(nxt, Tail(toks))
=============================================================================
