----------------------------- MODULE ModelNames -----------------------------
(***************************************************************************)
(* Design of a book of models: objects registered under a name, patterns   *)
(* that describe objects, and look-ups, which create an object only if the *)
(* name has none yet.                                                      *)
(* Bug: "prefix" accepts text behind the last literal, "any" reports names *)
(* as known that only look like a pattern, "again" creates a new object at *)
(* every look-up, "shared" reuses the object of the first created name,    *)
(* "late" appends patterns instead of placing them.                        *)
(***************************************************************************)
EXTENDS NameOps, TLC

CONSTANTS Bug, MaxOps

a == 97
b == 98
us == 95
Num == [name |-> "dec", pre |-> <<>>, opts |-> <<>>]
Int1 == [name |-> "int", pre |-> <<>>, opts |-> <<>>]
P1 == [id |-> 1, lits |-> <<<<a>>, <<>>>>, kinds |-> <<Num>>, args |-> <<"x">>, fixed |-> <<>>]
P2 == [id |-> 2, lits |-> <<<<a>>, <<b>>, <<>>>>, kinds |-> <<Num, Num>>, args |-> <<"x", "y">>, fixed |-> <<>>]
P3 == [id |-> 3, lits |-> <<<<a>>, <<us>>>>, kinds |-> <<Int1>>, args |-> <<"n">>, fixed |-> <<>>]
Pats == {P1, P2, P3}
Names == UNION {[1..n -> {a, b, us, 48, 50}] : n \in 1..3} \cup {<<a, 48, 50, b, 50>>, <<a, 50, us, 50>>}

VARIABLES pats, book, nxt, seen, ops
vars == <<pats, book, nxt, seen, ops>>

Init == pats = <<>> /\ book = <<>> /\ nxt = 1 /\ seen = {} /\ ops = 0

Cutoff(p, name) ==  (* the longest beginning that matches *)
    {n \in 1..Len(name) : Matches(p, SubSeq(name, 1, n))}
Fits(p, name) == Matches(p, name) \/ (Bug = "prefix" /\ p.lits[Len(p.lits)] # <<>> /\ Cutoff(p, name) # {})
Desc(name) == LET S == {k \in DOMAIN pats : Fits(pats[k], name)} IN IF S = {} THEN 0 ELSE First(S)
Known(name) == name \in DOMAIN book \/ Desc(name) # 0
Reported(name) == Known(name) \/ (Bug = "any" /\ \E k \in DOMAIN pats : At(name, pats[k].lits[1], 1))

AddPattern(p) == /\ \A k \in DOMAIN pats : pats[k].id # p.id
                 /\ pats' = IF Bug = "late" THEN pats \o <<p>> ELSE Place(pats, p)
                 /\ UNCHANGED <<book, nxt, seen>>
Register(name) == /\ name \notin DOMAIN book
                  /\ book' = book @@ (name :> [id |-> nxt, pat |-> 0, pars |-> {}])
                  /\ nxt' = nxt + 1
                  /\ UNCHANGED <<pats, seen>>
Lookup(name) ==
    LET d == Desc(name)
        new == [id |-> nxt, pat |-> IF d = 0 THEN 0 ELSE pats[d].id,
                pars |-> IF d = 0 \/ ~Matches(pats[d], name) THEN {} ELSE Pars(pats[d], name)]
        old == name \in DOMAIN book /\ ~(Bug = "again" /\ book[name].pat # 0 /\ d # 0)
        share == {m \in DOMAIN book : book[m].pat # 0}
        obj == IF old THEN book[name]
               ELSE IF Bug = "shared" /\ share # {} THEN book[CHOOSE m \in share : TRUE] ELSE new
    IN  /\ IF old \/ d # 0
           THEN /\ book' = (name :> obj) @@ book
                /\ nxt' = IF old THEN nxt ELSE nxt + 1
                /\ seen' = seen \cup {<<name, obj.id, obj.pat, obj.pars>>}
           ELSE UNCHANGED <<book, nxt, seen>>
        /\ UNCHANGED pats

Next == /\ ops < MaxOps
        /\ ops' = ops + 1
        /\ \/ \E p \in Pats : AddPattern(p)
           \/ \E n \in {<<a>>, <<a, 50>>} : Register(n)
           \/ \E n \in Names : Lookup(n)
Spec == Init /\ [][Next]_vars

Ids(n) == {s[2] : s \in {t \in seen : t[1] = n}}
OneObject == \A s \in seen : Cardinality(Ids(s[1])) = 1
Distinct == \A s, t \in seen : s[4] # t[4] => s[2] # t[2]
(* what was created is described by the whole name *)
Described == \A s \in seen : s[3] # 0 =>
    \E p \in Pats : p.id = s[3] /\ Matches(p, s[1]) /\ Pars(p, s[1]) = s[4]
Agree == \A n \in Names : Reported(n) <=> Known(n)
(* patterns with more variables are not hidden by those with fewer *)
Unhidden == \A i, j \in DOMAIN pats : i < j /\ pats[i].lits[1] = pats[j].lits[1]
    /\ pats[i].lits[Len(pats[i].lits)] = pats[j].lits[Len(pats[j].lits)] => Len(pats[i].lits) >= Len(pats[j].lits)
=============================================================================
