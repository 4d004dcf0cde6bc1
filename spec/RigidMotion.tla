---------------------------- MODULE RigidMotion -----------------------------
(***************************************************************************)
(* A farm in a homogeneous wind on an integer plane.  The wind comes from  *)
(* one of eight directions (multiples of 45 degrees, clockwise from the    *)
(* north).  A turbine j is in the wake of i iff j lies downwind of i and   *)
(* at most a given distance off the wake axis.  The farm is moved by any   *)
(* sequence of shifts and quarter turns about any centre, the wind turning *)
(* along; who is waked by whom must never change.                          *)
(* Bug = "origin": lateral offsets are measured from the origin            *)
(* Bug = "nowrap": directions are not reduced modulo the full circle       *)
(* Bug = "mirror": the lateral axis changes its side with the quadrant and *)
(*                 the wakes are lopsided                                  *)
(* Bug = "back":   the farm turns, the wind turns the other way            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, Box, MaxMoves, Bug

T == 1..N
VARIABLES xy, wd, hits, moves
vars == <<xy, wd, hits, moves>>

(* downwind unit vectors, times sqrt 2 for the diagonals *)
NX == <<0, -1, -1, -1, 0, 1, 1, 1>>
NY == <<-1, -1, 0, 1, 1, 1, 0, -1>>
Dir(w) == IF Bug = "nowrap" /\ w \notin 0..7 THEN <<0, 0>> ELSE <<NX[(w % 8) + 1], NY[(w % 8) + 1]>>
Left(w) == LET d == Dir(w) IN IF Bug = "mirror" /\ (w % 8) \in {2, 3} THEN <<d[2], -d[1]>> ELSE <<-d[2], d[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Off(a, b) == <<b[1] - a[1], b[2] - a[2]>>

(* lopsided wakes: one unit to the right, two to the left *)
Wakes(p, w) == {q \in T \X T :
    LET d == Off(p[q[1]], p[q[2]])
        y == IF Bug = "origin" THEN Dot(p[q[2]], Left(w)) ELSE Dot(d, Left(w))
    IN  q[1] # q[2] /\ Dot(d, Dir(w)) > 0 /\ y >= -1 /\ y <= 2}

Pts == (0..Box) \X (0..Box)

Init == /\ xy \in [T -> Pts]
        /\ \A i, j \in T : i # j => xy[i] # xy[j]
        /\ wd \in 0..7
        /\ hits = Wakes(xy, wd)
        /\ moves = 0

Shift == \E v \in {<<1, 0>>, <<0, -1>>, <<-2, 1>>} :
           xy' = [i \in T |-> <<xy[i][1] + v[1], xy[i][2] + v[2]>>] /\ wd' = wd

(* a quarter turn clockwise about c *)
Turn == \E c \in {<<0, 0>>, <<1, 2>>} :
          /\ xy' = [i \in T |-> <<c[1] + xy[i][2] - c[2], c[2] - xy[i][1] + c[1]>>]
          /\ wd' = IF Bug = "nowrap" THEN wd + 2 ELSE IF Bug = "back" THEN (wd + 6) % 8 ELSE (wd + 2) % 8

Next == /\ moves < MaxMoves
        /\ moves' = moves + 1
        /\ Shift \/ Turn
        /\ UNCHANGED hits
Spec == Init /\ [][Next]_vars

Invariant == Wakes(xy, wd) = hits
=============================================================================
