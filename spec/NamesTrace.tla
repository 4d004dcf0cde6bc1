----------------------------- MODULE NamesTrace -----------------------------
(***************************************************************************)
(* Recorded use of a book of models:                                       *)
(*   add       a pattern was added                                         *)
(*   register  object obj was stored under name                            *)
(*   has       name in book -> res                                         *)
(*   get       book[name]: ok, obj (an identity), cls (the class that was  *)
(*             created), args (<<parameter, value>>, those given), dflt    *)
(*             (parameters that have their default), k (the growth rate    *)
(*             that the object computes, in 1/Unit, or -1)                 *)
(* cfg: ti, kvar: the ambient conditions behind k                          *)
(***************************************************************************)
EXTENDS TraceRun, NameOps

XInit(cfg) == [cfg |-> cfg, pats |-> cfg.pats, book |-> <<>>, made |-> {}]

ToSet(q) == {q[k] : k \in DOMAIN q}
Refused(s, n) == n \notin DOMAIN s.book /\ Describes(s.pats, n) # 0 /\ s.pats[Describes(s.pats, n)].refuse = 1
Known(s, n) == ~Refused(s, n) /\ (n \in DOMAIN s.book \/ Describes(s.pats, n) # 0)
HasArg(A, v) == \E x \in A : x[1] = v
Arg(A, v) == (CHOOSE x \in A : x[1] = v)[2][1]
(* the growth rate: k, or ka times the turbulence plus kb *)
Growth(s, P) ==
    IF HasArg(P, "k") THEN Arg(P, "k")
    ELSE IF HasArg(P, "ka")
    THEN DivR(Arg(P, "ka"), IF <<"ti_var", s.cfg.ambti>> \in P THEN s.cfg.ti2 ELSE s.cfg.ti1)
         + (IF HasArg(P, "kb") THEN Arg(P, "kb") ELSE 0)
    ELSE IF HasArg(P, "kTI")
    THEN DivR(Arg(P, "kTI"), IF <<"ti_var", s.cfg.ambti>> \in P THEN s.cfg.ti2 ELSE s.cfg.ti1)
         + (IF HasArg(P, "kb") THEN Arg(P, "kb") ELSE 0)
    ELSE -1

Dist(x, y) == IF x > y THEN x - y ELSE y - x

XViol(s, e) ==
    CASE e.t = "has" ->
           (IF e.res = (IF Known(s, e.name) THEN 1 ELSE 0) THEN {}
            ELSE {"reported as known without being found, or the other way round: " \o e.text})
      [] e.t = "get" ->
           IF ~Known(s, e.name)
           THEN (IF e.ok = 0 /\ (e.err = "KeyError" \/ Refused(s, e.name)) THEN {}
                 ELSE IF e.ok = 1 THEN {"a name that matches nothing was accepted: " \o e.text}
                 ELSE {"a name that matches nothing failed with " \o e.err \o ": " \o e.text})
           ELSE IF e.ok = 0 THEN {"a known name was refused: " \o e.text \o ", " \o e.err}
           ELSE IF e.name \in DOMAIN s.book
           THEN (IF e.obj = s.book[e.name] THEN {} ELSE {"another object than before: " \o e.text})
           ELSE LET p == s.pats[Describes(s.pats, e.name)]
                    A == ToSet(e.args)
                    P == Pars(p, e.name)
                IN  (IF e.cls = p.cls THEN {} ELSE {"another class than the first matching pattern's: " \o e.text})
                    \cup (IF \E x \in s.made : x = e.obj THEN {"distinct names share an object: " \o e.text} ELSE {})
                    \cup (IF P \subseteq A /\ \A x \in A : x \in P \/ x[1] \in ToSet(e.dflt) THEN {}
                          ELSE {"the values in the name did not arrive in the parameters: " \o e.text})
                    \cup (IF e.k < 0 \/ Growth(s, P) < 0 \/ Dist(e.k, Growth(s, P)) <= 2 THEN {}
                          ELSE {"the wake growth is not the one in the name: " \o e.text})
      [] OTHER -> {}

XApply(s, e) ==
    CASE e.t = "add" -> [s EXCEPT !.pats = Place(@, e.pat)]
      [] e.t = "register" -> [s EXCEPT !.book = (e.name :> e.obj) @@ @, !.made = @ \cup {e.obj}]
      [] e.t = "get" -> IF e.ok = 1 THEN [s EXCEPT !.book = (e.name :> e.obj) @@ @, !.made = @ \cup {e.obj}] ELSE s
      [] OTHER -> s

XEnd(s) == {}
=============================================================================
