------------------------------ MODULE ModelOps ------------------------------
(***************************************************************************)
(* Which turbine models act on a turbine, and in which order.              *)
(* An entry of a turbine's list is [parts, sel]; parts are the models it   *)
(* stands for, each [name, pre, code, type]; sel the chosen states, one    *)
(* 0/1 per state, or <<>> for all.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

(* the models of one turbine before or after the rotor, with selections *)
Stage(list, pre) == Cat([i \in DOMAIN list |-> LET ps == SelectSeq(list[i].parts, LAMBDA p : p.pre = pre)
                                                IN  [k \in DOMAIN ps |-> [m |-> ps[k], sel |-> list[i].sel]]])

Names(list, pre) == LET s == Stage(list, pre) IN [k \in DOMAIN s |-> s[k].m.name]

(* the models that act on a turbine in a state *)
Acting(list, pre, s) == SelectSeq(Stage(list, pre), LAMBDA x : x.sel = <<>> \/ x.sel[s] = 1)

Range(f) == {f[i] : i \in DOMAIN f}
Before(ns) == {<<a, b>> \in Range(ns) \X Range(ns) : \E i, j \in DOMAIN ns : i < j /\ ns[i] = a /\ ns[j] = b}
Distinct(ns) == Cardinality(Range(ns)) = Len(ns)

RECURSIVE Closure(_, _)
Closure(R, k) ==
    LET E == {x[1] : x \in R} \cup {x[2] : x \in R}
        T == R \cup {x \in E \X E : \E y \in E : <<x[1], y>> \in R /\ <<y, x[2]>> \in R}
    IN  IF T = R \/ k = 0 THEN R ELSE Closure(T, k - 1)

(* a common order of all models exists *)
Mergeable(lists) ==
    LET R == UNION {Before(lists[t]) : t \in DOMAIN lists}
    IN  ~\E x \in Closure(R, 8) : x[1] = x[2]

(* lists in which a model occurs twice are outside of what is decided *)
Clear(lists) == \A t \in DOMAIN lists : Distinct(lists[t])

Types(list) == Cat([i \in DOMAIN list |-> SelectSeq(list[i].parts, LAMBDA p : p.type = 1)])
(* an entry of several models: none before the rotor after one behind it *)
PartsFine(list) == \A i \in DOMAIN list : \A a, b \in DOMAIN list[i].parts : (a < b /\ list[i].parts[b].pre = 1) => list[i].parts[a].pre = 1
Known(list) == \A i \in DOMAIN list : list[i].parts # <<>>

MustRefuse(lists) ==
    \/ \E t \in DOMAIN lists : ~Known(lists[t]) \/ Len(Types(lists[t])) # 1 \/ ~PartsFine(lists[t])
    \/ LET a == [t \in DOMAIN lists |-> Names(lists[t], 1)]
           b == [t \in DOMAIN lists |-> Names(lists[t], 0)]
       IN  (Clear(a) /\ ~Mergeable(a)) \/ (Clear(b) /\ ~Mergeable(b))

MustAccept(lists) ==
    /\ \A t \in DOMAIN lists : Known(lists[t]) /\ Len(Types(lists[t])) = 1 /\ PartsFine(lists[t])
    /\ LET a == [t \in DOMAIN lists |-> Names(lists[t], 1)]
           b == [t \in DOMAIN lists |-> Names(lists[t], 0)]
       IN  Clear(a) /\ Mergeable(a) /\ Clear(b) /\ Mergeable(b)

(* h, with what it is made of, repeats the sequence w: whole, or the last
   part of it if h is as long as what is kept *)
Repeats(h, w, keep) ==
    IF w = <<>> THEN h = <<>>
    ELSE /\ h # <<>>
         /\ Len(h) < keep => Len(h) % Len(w) = 0
         /\ \A i \in DOMAIN h : h[i] = w[Len(w) - ((Len(h) - i) % Len(w))]
=============================================================================
