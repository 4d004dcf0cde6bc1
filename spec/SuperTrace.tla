----------------------------- MODULE SuperTrace -----------------------------
(***************************************************************************)
(* Recorded superpositions: event add carries the cells that a source      *)
(* reaches with scaled integer contributions, event final the resulting    *)
(* effect per cell, abstracted to sg (its sign) and pw (the p-th power of  *)
(* its size in the unit of the contributions; -1 if not an integer) and to *)
(* flags lo, hi: the total equals the declared lower or upper limit.       *)
(*                                                                         *)
(* cfg: n cells, op, p, dec (1 wind speed: the effect is subtracted),      *)
(*      haslo, hashi, amb, lo, hi  ambient values and limits, in the same  *)
(*      units (per cell, for local scaling in units of the local value)    *)
(***************************************************************************)
EXTENDS TraceRun, SuperOps

XInit(cfg) == [cfg |-> cfg, acc |-> [c \in 1..cfg.n |-> Neutral], got |-> {}, fin |-> 0]

(* signed effect and power before limits *)
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Raw(s, c) ==
    LET a == s.acc[c]  o == s.cfg.op IN
    CASE o \in {"sum", "prod"} -> <<Sign(a), Abs(a)>>
      [] OTHER -> <<s.cfg.dec * Sign(a), a>>

(* is -size^(1/p) below the limit l - amb (all integers)? *)
Below(g, q, p, d) ==  (* g * q^(1/p) < d *)
    IF g >= 0 THEN d > 0 /\ (q < Pow(Abs(d), p))
    ELSE IF d >= 0 THEN TRUE ELSE q > Pow(Abs(d), p)
Above(g, q, p, d) ==
    IF g <= 0 THEN d < 0 /\ (q < Pow(Abs(d), p))
    ELSE IF d <= 0 THEN TRUE ELSE q > Pow(Abs(d), p)

Power(s) == IF s.cfg.op = "pow" THEN s.cfg.p ELSE 1

Good(s, e, c) ==
    LET r == Raw(s, c)
        d  == s.cfg.lo[c] - s.cfg.amb[c]
        (* haslo = 2: the limit lies slightly above lo *)
        lo == \/ s.cfg.haslo = 1 /\ Below(r[1], r[2], Power(s), d)
              \/ s.cfg.haslo = 2 /\ ~Above(r[1], r[2], Power(s), d)
        hi == s.cfg.hashi = 1 /\ Above(r[1], r[2], Power(s), s.cfg.hi[c] - s.cfg.amb[c])
    IN  IF lo THEN e.atlo[c] = 1
        ELSE IF hi THEN e.athi[c] = 1
        ELSE e.sg[c] = r[1] /\ e.pw[c] = r[2]

XViol(s, e) ==
    IF e.ok = 0 THEN {"superposition failed: " \o e.err}
    ELSE IF e.t = "add" THEN {}
    ELSE (IF \A c \in 1..s.cfg.n : Good(s, e, c) \/ c \notin s.got THEN {}
          ELSE {"the combined effect is not what the name says, " \o s.cfg.name})
         \cup (IF \A c \in 1..s.cfg.n : Good(s, e, c) \/ c \in s.got THEN {}
          ELSE {"effect where nothing contributes, " \o s.cfg.name})

XApply(s, e) ==
    IF e.ok = 0 THEN [s EXCEPT !.fin = 1]
    ELSE IF e.t = "final" THEN [s EXCEPT !.fin = 1]
    ELSE [s EXCEPT
            !.acc = [c \in DOMAIN @ |->
                IF \E k \in DOMAIN e.cells : e.cells[k] = c
                THEN LET k == CHOOSE k \in DOMAIN e.cells : e.cells[k] = c
                     IN Combine(s.cfg.op, s.cfg.p, @[c], e.scl[k] * e.con[k])
                ELSE @[c]],
            !.got = @ \cup {e.cells[k] : k \in DOMAIN e.cells}]

XEnd(s) == IF s.fin = 0 THEN {"no final effect"} ELSE {}
=============================================================================
