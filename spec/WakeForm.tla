------------------------------ MODULE WakeForm ------------------------------
(***************************************************************************)
(* Design: the wake of one turbine, seen as a disc of slower air that is    *)
(* carried downstream and widens by K per step.  The missing flow F is      *)
(* spread evenly over the disc, so the deficit is F divided by the square   *)
(* of the radius; nothing happens in front of the rotor.                    *)
(* Places are pairs (steps behind the rotor, offset from the axis).         *)
(* Bug: "front"  the wake reaches one step in front of the rotor            *)
(*      "narrow" the disc does not widen on one side                        *)
(*      "flux"   the deficit falls with the radius, not with its square     *)
(*      "core"   the deficit is not limited close to the rotor              *)
(*      "refill" the wake becomes deeper again after some steps             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS R0, Ks, Fs, Steps, Top, Bug

VARIABLES k, f, x, rad, wake

vars == <<k, f, x, rad, wake>>
Offsets == -(R0 + 4 * Steps)..(R0 + 4 * Steps)
Abs(i) == IF i < 0 THEN -i ELSE i
Low(a, b) == IF a < b THEN a ELSE b

Init == /\ k \in Ks /\ f \in Fs
        /\ x = 0
        /\ rad = R0
        /\ wake = << >>

Depth == LET d == IF Bug = "flux" THEN (f \div rad) ELSE f \div (rad * rad)
             e == IF Bug = "refill" /\ x = Steps - 1 THEN d + 3 ELSE d IN
         IF Bug = "core" THEN e ELSE Low(e, Top)
In(y) == Abs(y) <= rad \/ (Bug = "narrow" /\ y > 0 /\ y <= rad + 1)

(* one step further down *)
Step ==
    /\ x < Steps
    /\ wake' = Append(wake, [y \in Offsets |-> IF In(y) THEN Depth ELSE 0])
    /\ rad' = rad + k
    /\ x' = x + 1
    /\ UNCHANGED <<k, f>>

Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

At(i, y) == IF i >= 1 THEN wake[i][y] ELSE IF Bug = "front" /\ i = 0 /\ Len(wake) > 0 THEN wake[1][y] ELSE 0
D == 1..Len(wake)

Behind == \A y \in Offsets : At(0, y) = 0
Bounded == \A i \in D, y \in Offsets : wake[i][y] >= 0 /\ wake[i][y] <= Top
Mirrored == \A i \in D, y \in Offsets : wake[i][y] = wake[i][-y]
Outwards == \A i \in D, y \in Offsets : (y > 0) => wake[i][y] <= wake[i][y - 1]
Recovers == \A i \in D : (i > 1) => wake[i][0] <= wake[i - 1][0]
(* nothing is created on the way: the missing flow never exceeds F *)
Kept == \A i \in D : wake[i][0] * (R0 + k * (i - 1)) * (R0 + k * (i - 1)) <= f
WellFormed == Behind /\ Bounded /\ Mirrored /\ Outwards /\ Recovers /\ Kept
Leaves == <>(x = Steps)
=============================================================================
