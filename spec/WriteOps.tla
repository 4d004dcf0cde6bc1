------------------------------ MODULE WriteOps ------------------------------
(***************************************************************************)
(* What a file written from a result table contains.                       *)
(*                                                                         *)
(* A table tb is [states, turbines, names, vars, val]: the labels of its   *)
(* states, of its turbines, the turbine names, the variables and           *)
(* val[v][s][t]; numbers are in units of 10^-7, texts have numbers too.    *)
(* A request q is                                                          *)
(*   vars    sequence of variables                                         *)
(*   ren     sequence of <<variable or dimension, name in the file>>       *)
(*   names   1: turbines are given by their names                          *)
(*   wide    1: one column per turbine                                     *)
(*   fmt     sequence of <<variable, digits>>: rounding asked for          *)
(*   alias   sequence of <<column, variable whose rounding applies>>       *)
(*   keep    1: no rounding                                                *)
(*   ss, tt  positions of the selected states and turbines                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

MISSING == -2000000000
TEXT == -1500000000      \* smaller numbers stand for texts and missing values
EXACT == -1

Lookup(seq, k, default) ==
    LET I == {i \in DOMAIN seq : seq[i][1] = k}
    IN  IF I = {} THEN default ELSE seq[CHOOSE i \in I : \A j \in I : j <= i][2]

DigitsTable == [WD |-> 3, YAW |-> 3, WS |-> 4, REWS |-> 4, REWS2 |-> 4, REWS3 |-> 4, TI |-> 6, RHO |-> 5, P |-> 3, CT |-> 6, T |-> 3, YLD |-> 3, CAP |-> 5, EFF |-> 5,
                AMB_WD |-> 3, AMB_YAW |-> 3, AMB_WS |-> 4, AMB_REWS |-> 4, AMB_REWS2 |-> 4, AMB_REWS3 |-> 4, AMB_TI |-> 6, AMB_RHO |-> 5, AMB_P |-> 3, AMB_CT |-> 6,
                AMB_T |-> 3, AMB_YLD |-> 3, AMB_CAP |-> 5]

Default(c) == IF c \in DOMAIN DigitsTable THEN DigitsTable[c] ELSE EXACT

(* netCDF files give the yaw no digits of its own *)
Digits(q, c, nc) ==
    LET v == IF nc THEN c ELSE Lookup(q.alias, c, c)
        d == Lookup(q.fmt, v, Default(v))
    IN  IF nc /\ q.keep = 1 THEN EXACT
        ELSE IF nc /\ Lookup(q.fmt, v, EXACT) = EXACT /\ v \in {"YAW", "AMB_YAW"} THEN EXACT
        ELSE d

Pow10[n \in 0..9] == IF n = 0 THEN 1 ELSE 10 * Pow10[n - 1]

AbsV(x) == IF x < 0 THEN -x ELSE x

(* numbers agree up to the declared rounding, everything else is equal *)
Same(x, y, d, num) ==
    IF ~num \/ x < TEXT \/ y < TEXT \/ d = EXACT \/ d >= 7 THEN x = y
    ELSE /\ AbsV(x - y) <= 5 * Pow10[6 - d] + 1
         /\ y % Pow10[7 - d] = 0

Name(q, v) == Lookup(q.ren, v, v)

(* rows in the order of states, then turbines *)
Row(tb, k) == LET n == Len(tb.turbines) IN <<((k - 1) \div n) + 1, ((k - 1) % n) + 1>>
Rows(tb) == Len(tb.states) * Len(tb.turbines)

(* the selected part of a table *)
Sub(tb, q) == [states |-> [i \in DOMAIN q.ss |-> tb.states[q.ss[i]]],
               turbines |-> [i \in DOMAIN q.tt |-> tb.turbines[q.tt[i]]],
               names |-> [i \in DOMAIN q.tt |-> tb.names[q.tt[i]]],
               val |-> [v \in DOMAIN tb.val |-> [i \in DOMAIN q.ss |-> [j \in DOMAIN q.tt |-> tb.val[v][q.ss[i]][q.tt[j]]]]]]

(* the columns of a long file: [col, vals, var] *)
Long(tb, q) == [i \in DOMAIN q.vars |-> [col |-> Name(q, q.vars[i]), var |-> q.vars[i],
                 vals |-> [k \in 1..Rows(tb) |-> tb.val[q.vars[i]][Row(tb, k)[1]][Row(tb, k)[2]]]]]

(* the columns of a wide file, one per turbine *)
Wide(tb, q, labels) == [t \in DOMAIN tb.turbines |-> [col |-> Name(q, q.vars[1]) \o labels[t], var |-> q.vars[1],
                 vals |-> [s \in DOMAIN tb.states |-> tb.val[q.vars[1]][s][t]]]]
=============================================================================
