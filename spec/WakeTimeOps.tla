---------------------------- MODULE WakeTimeOps ----------------------------
(***************************************************************************)
(* Travelling wakes.  During time step s the inflow moves everything by    *)
(* d[s] = <<dx, dy>> (integers).  A wake parcel emitted by a turbine at    *)
(* place T at time e is found, at time t >= e, at T plus the moves of the  *)
(* steps e, ..., t-1.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Larger(a, b) == IF a > b THEN a ELSE b

RECURSIVE Moved(_, _, _, _)
Moved(d, i, e, t) == IF t <= e THEN 0 ELSE d[t - 1][i] + Moved(d, i, e, t - 1)

Parcel(d, T, e, t) == <<T[1] + Moved(d, 1, e, t), T[2] + Moved(d, 2, e, t)>>

(* length of the path (moves are along the axes) *)
RECURSIVE Path(_, _, _)
Path(d, e, t) == IF t <= e THEN 0 ELSE Abs(d[t - 1][1]) + Abs(d[t - 1][2]) + Path(d, e, t - 1)

RECURSIVE Step(_, _)
Step(d, t) == IF t = 0 THEN 0 ELSE Larger(Larger(Abs(d[t][1]), Abs(d[t][2])), Step(d, t - 1))

Apart(p, q) == Larger(Abs(p[1] - q[1]), Abs(p[2] - q[2]))

(***************************************************************************)
(* What may and what has to be found at place p and time t, for a source   *)
(* time e (0: no wake); age: parcels live that many steps, len: and at     *)
(* most that far.                                                          *)
(***************************************************************************)
Causal(e, t) == e <= t
(* not before the inflow had the time to travel there, within one step *)
Arrived(d, T, p, e, t) == Apart(Parcel(d, T, e, t), p) <= Step(d, Len(d))
Alive(d, e, t, age, len) == t - e < age /\ Path(d, e, t) <= len + Step(d, Len(d))
(* parcels that are exactly there *)
Hits(d, T, p, t, age, len) == {e \in 1..(t - 1) : Parcel(d, T, e, t) = p /\ t - e < age - 1 /\ Path(d, e, t) <= len}
Found(d, T, p, e, t, age, len) ==
    LET H == Hits(d, T, p, t, age, len) IN
    H = {} \/ (e > 0 /\ (e \in H \/ Parcel(d, T, e, t) = p))
=============================================================================
