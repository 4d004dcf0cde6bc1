----------------------------- MODULE PointEval -----------------------------
(***************************************************************************)
(* Design of point evaluation: an S x P grid of evaluation points is cut   *)
(* into rectangular chunks; a worker evaluates the chunk's cells one after *)
(* the other, each from the state's flow and the cell's own coordinate.    *)
(* Bugs that the invariants exclude: accumulation across chunk borders,    *)
(* use of another state's coordinates, loss or duplication of cells.       *)
(* Leaky switches on a chunk-local accumulator shared by the points of a   *)
(* chunk, as a sanity check of the invariant.                              *)
(***************************************************************************)
EXTENDS Chunking, TLC

CONSTANTS S, P, SizeS, SizeP, Coord, Leaky

(* coordinate of point p in state s: either common or different per state *)
C(s, p) == IF Coord = "same" THEN p ELSE 10 * s + p
F(s, c) == <<s, c>>

CS == StateChunks(S, 2, SizeS)
CP == StateChunks(P, 2, SizeP)
Chunks == (DOMAIN CS) \X (DOMAIN CP)

VARIABLES todo, acc, res
vars == <<todo, acc, res>>

Cells(k) == Items(CS, k[1]) \X Items(CP, k[2])

Init == /\ todo = [k \in Chunks |-> Cells(k)]
        /\ acc = [k \in Chunks |-> {}]
        /\ res = [c \in (1..S) \X (1..P) |-> {}]

Eval(k, c) ==
    /\ c \in todo[k]
    /\ todo' = [todo EXCEPT ![k] = @ \ {c}]
    /\ LET v == F(c[1], C(c[1], c[2])) IN
       /\ acc' = [acc EXCEPT ![k] = IF Leaky THEN @ \cup {v} ELSE {v}]
       /\ res' = [res EXCEPT ![c] = acc'[k]]

Next == \E k \in Chunks : \E c \in todo[k] : Eval(k, c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == \A k \in Chunks : todo[k] = {}
Right == Done => \A c \in DOMAIN res : res[c] = {F(c[1], C(c[1], c[2]))}
Local == \A c \in DOMAIN res : res[c] \in {{}, {F(c[1], C(c[1], c[2]))}}
Finishes == <>Done
=============================================================================
