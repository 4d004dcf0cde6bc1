----------------------------- MODULE SightModel -----------------------------
(***************************************************************************)
(* Design: two ways of looking at the same flow.                           *)
(* The farm pass walks along the wind: every turbine averages the flow     *)
(* over its rotor points, settles its state from that, and then adds its   *)
(* wake to the rotor points further down.  The point evaluation comes      *)
(* later and sums, at any place, the wakes of all settled turbines.        *)
(* Both must see the same at the rotor points, and a turbine without       *)
(* thrust (a mast) must change nothing.                                    *)
(* Bug: "stale"  wakes are made from the state before the turbine settled  *)
(*      "next"   the wake misses the nearest turbine                       *)
(*      "first"  the ambient flow of the first turbine serves all rotors   *)
(*      "own"    the point evaluation leaves out the last but one turbine  *)
(*      "mast"   a mast makes a wake                                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS N, P, MaxAmb, Thr, Bug

VARIABLES amb,     \* ambient flow per turbine and rotor point
          reach,   \* whether the wake of s reaches rotor point p of t > s
          mast,    \* turbines without thrust
          del,     \* wake sums of the farm pass
          val,     \* settled rotor sums
          pos,     \* next turbine of the pass
          pts      \* point results at the rotor points

vars == <<amb, reach, mast, del, val, pos, pts>>
T == 1..N
R == 1..P
Pairs == {q \in T \X T : q[1] < q[2]}

RECURSIVE SumTo(_, _)
SumTo(f(_), k) == IF k = 0 THEN 0 ELSE f(k) + SumTo(f, k - 1)

(* thrust depends on what the rotor sees *)
Strength(s, v) == IF s \in mast /\ Bug # "mast" THEN 0 ELSE IF v >= Thr THEN 2 ELSE 1

Init ==
    /\ amb \in [T -> [R -> 0..MaxAmb]]
    /\ reach \in [Pairs -> SUBSET R]
    /\ mast \in SUBSET T
    /\ del = [t \in T |-> [p \in R |-> 0]]
    /\ val = [t \in T |-> 0]
    /\ pts = [t \in T |-> [p \in R |-> 0]]
    /\ pos = 1

Rotor(t) == SumTo(LAMBDA p : amb[IF Bug = "first" THEN 1 ELSE t][p] + del[t][p], P)
Ambient(t) == SumTo(LAMBDA p : amb[t][p], P)

Farm ==
    /\ pos <= N
    /\ val' = [val EXCEPT ![pos] = Rotor(pos)]
    /\ LET st == Strength(pos, IF Bug = "stale" THEN Ambient(pos) ELSE Rotor(pos)) IN
       del' = [t \in T |-> [p \in R |->
                 del[t][p] + (IF t > pos /\ ~(Bug = "next" /\ t = pos + 1) /\ p \in reach[<<pos, t>>] THEN st ELSE 0)]]
    /\ pos' = pos + 1
    /\ UNCHANGED <<amb, reach, mast, pts>>

Counted == {s \in T : ~(Bug = "own" /\ s = N - 1)}
Points ==
    /\ pos = N + 1
    /\ pts' = [t \in T |-> [p \in R |-> amb[t][p] +
                 SumTo(LAMBDA s : IF s \in Counted /\ s < t /\ p \in reach[<<s, t>>] THEN Strength(s, val[s]) ELSE 0, N)]]
    /\ pos' = N + 2
    /\ UNCHANGED <<amb, reach, mast, del, val>>

Next == Farm \/ Points
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pos = N + 2
Agree == Done => \A t \in T : val[t] = SumTo(LAMBDA p : pts[t][p], P)
NoMast == Done => \A t \in T : \A p \in R : (\A s \in T : s < t => s \in mast \/ p \notin reach[<<s, t>>]) => pts[t][p] = amb[t][p]
Finishes == <>Done
=============================================================================
