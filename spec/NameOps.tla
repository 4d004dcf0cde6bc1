------------------------------ MODULE NameOps ------------------------------
(***************************************************************************)
(* Names and name patterns as sequences of character codes.  A pattern is  *)
(* a record with                                                           *)
(*   lits   the literal parts l0, l1, .., ln around the n variables        *)
(*   kinds  how the text of each variable is read                          *)
(*   args   the parameter each variable stands for                         *)
(* A name matches if it reads l0 v1 l1 v2 .. vn ln, where every literal    *)
(* but the last is taken at its first occurrence, and every text can be    *)
(* read.  Values: texts as code sequences, numbers as <<x * Unit>>.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Unit == 100000
Bad == <<-99>>

At(name, lit, i) == i + Len(lit) - 1 <= Len(name) /\ \A k \in DOMAIN lit : name[i + k - 1] = lit[k]
Occ(name, lit, i) == {k \in i..(Len(name) + 1) : At(name, lit, k)}
First(S) == CHOOSE x \in S : \A y \in S : x <= y

(* the texts of the variables, or <<Bad>> without a match *)
RECURSIVE Texts(_, _, _, _)
Texts(name, lits, n, i) ==
    IF n > Len(lits) THEN <<>>
    ELSE IF n = Len(lits)
    THEN LET k == Len(name) - Len(lits[n]) + 1 IN
         IF k >= i /\ At(name, lits[n], k) THEN <<SubSeq(name, i, k - 1)>> ELSE <<Bad>>
    ELSE LET S == Occ(name, lits[n], i) IN
         IF S = {} THEN <<Bad>>
         ELSE LET k == First(S) IN <<SubSeq(name, i, k - 1)>> \o Texts(name, lits, n + 1, k + Len(lits[n]))

Split(p, name) ==
    IF Len(p.lits) = 1 THEN (IF name = p.lits[1] THEN <<>> ELSE <<Bad>>)
    ELSE IF ~At(name, p.lits[1], 1) THEN <<Bad>>
    ELSE Texts(name, p.lits, 2, Len(p.lits[1]) + 1)

(* reading numbers *)
IsDigit(c) == c >= 48 /\ c <= 57
AllDigits(t) == t # <<>> /\ \A k \in DOMAIN t : IsDigit(t[k])
RECURSIVE Nat10(_)
Nat10(t) == IF t = <<>> THEN 0 ELSE 10 * Nat10(SubSeq(t, 1, Len(t) - 1)) + (t[Len(t)] - 48)
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Frac(t) == (Nat10(t) * Unit) \div Pow10(Len(t))
Dots(t) == {k \in DOMAIN t : t[k] = 46}

(* single underscores between digits do not count *)
Grouped(t) == \A k \in DOMAIN t : t[k] = 95 => k > 1 /\ k < Len(t) /\ IsDigit(t[k - 1]) /\ IsDigit(t[k + 1])
Ungroup(t) == IF Grouped(t) THEN SelectSeq(t, LAMBDA c : c # 95) ELSE t

Number(t0) == LET t == Ungroup(t0) IN
    IF AllDigits(t) THEN <<Nat10(t) * Unit>>
    ELSE IF Cardinality(Dots(t)) # 1 THEN Bad
    ELSE LET d == First(Dots(t))  a == SubSeq(t, 1, d - 1)  b == SubSeq(t, d + 1, Len(t)) IN
         IF (a # <<>> /\ ~AllDigits(a)) \/ (b # <<>> /\ ~AllDigits(b)) \/ Len(t) = 1 THEN Bad
         ELSE <<Nat10(a) * Unit + Frac(b)>>

(* "04" stands for 0.4, "4" for 4 *)
Decimal(t) ==
    IF t # <<>> /\ t[1] = 48
    THEN LET r == Ungroup(SubSeq(t, 2, Len(t))) IN IF r = <<>> THEN <<0>> ELSE IF AllDigits(r) THEN <<Frac(r)>> ELSE Bad
    ELSE Number(t)

Ends(t, e) == Len(t) >= Len(e) /\ SubSeq(t, Len(t) - Len(e) + 1, Len(t)) = e
Cut(t, n) == SubSeq(t, 1, Len(t) - n)
DivR(a, b) == (2 * a + b) \div (2 * b)

Root(q) == {n \in 1..100 : n * n = q}

(* the value of a text read as kind k = [name, pre, opts] *)
Value(k, t) ==
    CASE k.name = "text"  -> k.pre \o t
      [] k.name = "dec"   -> Decimal(t)
      [] k.name = "num"   -> Number(t)
      [] k.name = "level" -> LET x == Number(t) IN IF x = Bad THEN Bad ELSE <<-3, 0>> \o x
      [] k.name = "int"   -> IF AllDigits(Ungroup(t)) THEN <<Nat10(Ungroup(t)) * Unit>> ELSE Bad
      [] k.name = "root"  -> LET x == Number(t) IN
                             IF x = Bad \/ x[1] % Unit # 0 \/ Root(x[1] \div Unit) = {} THEN Bad
                             ELSE <<Unit * First(Root(x[1] \div Unit))>>
      [] k.name = "time"  -> IF Ends(t, <<115>>) THEN LET x == Number(Cut(t, 1)) IN IF x = Bad THEN Bad ELSE <<DivR(x[1], 60)>>
                             ELSE IF Ends(t, <<109, 105, 110>>) THEN Number(Cut(t, 3)) ELSE Bad
      [] k.name = "dist"  -> IF Ends(t, <<107, 109>>) THEN Number(Cut(t, 2))
                             ELSE IF Ends(t, <<109>>) THEN LET x == Number(Cut(t, 1)) IN IF x = Bad THEN Bad ELSE <<DivR(x[1], 1000)>>
                             ELSE Bad
      [] k.name = "opt"   -> IF \E o \in DOMAIN k.opts : k.opts[o][1] = t
                             THEN LET o == CHOOSE o \in DOMAIN k.opts : k.opts[o][1] = t IN k.opts[o][2]
                             ELSE Bad

(* does name match p, and what does it describe? *)
Vals(p, name) == LET t == Split(p, name) IN
    IF \E k \in DOMAIN t : t[k] = Bad THEN <<Bad>>
    ELSE [k \in DOMAIN t |-> Value(p.kinds[k], t[k])]
Matches(p, name) == \A k \in DOMAIN Vals(p, name) : Vals(p, name)[k] # Bad
Pars(p, name) == {<<p.args[k], Vals(p, name)[k]>> : k \in DOMAIN p.args} \cup {p.fixed[k] : k \in DOMAIN p.fixed}

(* a pattern goes before those with the same ends and fewer variables *)
Place(ps, p) ==
    LET S == {k \in DOMAIN ps : /\ ps[k].lits[1] = p.lits[1]
                                /\ ps[k].lits[Len(ps[k].lits)] = p.lits[Len(p.lits)]
                                /\ Len(ps[k].lits) < Len(p.lits)}
        i == IF S = {} THEN Len(ps) + 1 ELSE First(S)
    IN SubSeq(ps, 1, i - 1) \o <<p>> \o SubSeq(ps, i, Len(ps))

Describes(ps, name) == LET S == {k \in DOMAIN ps : Matches(ps[k], name)} IN IF S = {} THEN 0 ELSE First(S)
=============================================================================
