------------------------------ MODULE RuleRun ------------------------------
(***************************************************************************)
(* Design of rule models in a calculation: a farm of turbines in listing   *)
(* order, a downwind order per state, chunks of states evaluated in any    *)
(* order, data in downwind order, rules given for turbines of the listing, *)
(* an ambient pass over all turbines followed by a pass turbine by         *)
(* turbine.  Models: set "x" (a value per turbine, with holes), a rule     *)
(* table (turbine, range of x, value for y), and y := y + x for the        *)
(* selected turbines.                                                      *)
(* Bug: "order" reads rules by downwind position, "nosel" ignores the      *)
(* selection, "keep" forgets to set y at the start of the second pass.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NT, NS, Vals, Bug

T == 1..NT
S == 1..NS
Perms == {p \in [T -> T] : \A a, b \in T : a # b => p[a] # p[b]}

VARIABLES order, xs, rule, sel, fx, fy, todo, pass, pos
vars == <<order, xs, rule, sel, fx, fy, todo, pass, pos>>

Init == /\ order \in [S -> Perms]        \* order[s][i]: turbine at position i
        /\ xs \in [T -> Vals]
        /\ rule \in [t : T, lo : Vals, val : Vals]
        /\ sel \in [S -> SUBSET T]
        /\ fx = [s \in S |-> [i \in T |-> -1]]
        /\ fy = [s \in S |-> [i \in T |-> -1]]
        /\ todo = S /\ pass = [s \in S |-> 0] /\ pos = [s \in S |-> 0]

Turb(s, i) == order[s][i]
At(s, i) == IF Bug = "order" THEN i ELSE Turb(s, i)

(* the models for position i of state s *)
Chain(s, i, y0) ==
    LET x == xs[Turb(s, i)]
        y1 == IF Bug = "keep" /\ pass[s] = 1 THEN y0 ELSE 0
        y2 == IF At(s, i) = rule.t /\ x >= rule.lo THEN rule.val ELSE y1
    IN  <<x, IF Turb(s, i) \in sel[s] \/ Bug = "nosel" THEN y2 + x ELSE y2>>

Ambient(s) == /\ pass[s] = 0
              /\ fx' = [fx EXCEPT ![s] = [i \in T |-> Chain(s, i, 0)[1]]]
              /\ fy' = [fy EXCEPT ![s] = [i \in T |-> Chain(s, i, 0)[2]]]
              /\ pass' = [pass EXCEPT ![s] = 1]
              /\ pos' = [pos EXCEPT ![s] = 1]
              /\ UNCHANGED <<order, xs, rule, sel, todo>>
Waked(s) == /\ pass[s] = 1 /\ pos[s] <= NT
            /\ LET c == Chain(s, pos[s], fy[s][pos[s]])
               IN  /\ fx' = [fx EXCEPT ![s][pos[s]] = c[1]]
                   /\ fy' = [fy EXCEPT ![s][pos[s]] = c[2]]
            /\ pos' = [pos EXCEPT ![s] = @ + 1]
            /\ todo' = IF pos[s] = NT THEN todo \ {s} ELSE todo
            /\ UNCHANGED <<order, xs, rule, sel, pass>>
Next == \E s \in S : s \in todo /\ (Ambient(s) \/ Waked(s))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Want(s, t) == LET y == IF t = rule.t /\ xs[t] >= rule.lo THEN rule.val ELSE 0
              IN  IF t \in sel[s] THEN y + xs[t] ELSE y
Rules == \A s \in S \ todo : \A i \in T : fx[s][i] = xs[Turb(s, i)] /\ fy[s][i] = Want(s, Turb(s, i))
Finishes == <>(todo = {})
=============================================================================
