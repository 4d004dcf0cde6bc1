----------------------------- MODULE InflowRun -----------------------------
(***************************************************************************)
(* From a table to the inflow of a calculation: rows are selected, columns *)
(* replaced by fixed values, the rest is cut into chunks of states and     *)
(* every chunk delivers values at places and the weights of its states.    *)
(* The invariants relate what was delivered to the table itself.           *)
(***************************************************************************)
EXTENDS InflowOps, TLC

CONSTANTS NR, Bug

VARIABLES phase, sel, fixed, chunks, out, wts

vars == <<phase, sel, fixed, chunks, out, wts>>

Ws == <<60, 80, 100, 120>>
Wd == <<0, 90, 345, 15>>
Given == <<5, 0, 2, 3>>

(* two heights, the upper one turns the wind by 30 degrees *)
Chan(n, fix) ==
    [n |-> n, fix |-> fix, fv |-> IF n = "WS" THEN 70 ELSE 45,
     ah |-> IF fix = 1 THEN <<0>> ELSE <<0, 4>>, ay |-> <<0>>, ax |-> <<0>>,
     t |-> [r \in 1..NR |-> << << <<IF n = "WS" THEN Ws[r] ELSE Wd[r]>> >>,
                               << <<IF n = "WS" THEN Ws[r] + 20 ELSE Wd[r] + 30>> >> >>]]
CS == Chan("WS", IF "WS" \in fixed THEN 1 ELSE 0)
CD == Chan("WD", IF "WD" \in fixed THEN 1 ELSE 0)
Places == {<<0, 0, 0>>, <<1, 0, 0>>, <<4, 0, 0>>}

Init == /\ phase = "new" /\ sel = <<>> /\ chunks = <<>> /\ out = {} /\ wts = <<>>
        /\ fixed \in SUBSET {"WS", "WD"}

Seqs == UNION {{q \in [1..n -> 1..NR] : \A i, j \in 1..n : i # j => q[i] # q[j]} : n \in 1..NR}

Select == /\ phase = "new"
          /\ \E q \in Seqs : sel' = q
          /\ phase' = "cut"
          /\ UNCHANGED <<fixed, chunks, out, wts>>

(* chunks as [first, last] positions *)
Cut == /\ phase = "cut"
       /\ \E k \in 1..Len(sel) :
            chunks' = [c \in 1..((Len(sel) + k - 1) \div k) |->
                        [f |-> (c - 1) * k + 1, l |-> Least(c * k, Len(sel))]]
       /\ phase' = "deliver"
       /\ UNCHANGED <<sel, fixed, out, wts>>

Row(s) == sel[s]
Fx == IF Bug = "colwins" THEN [CS EXCEPT !.fix = 0, !.ah = <<0, 4>>] ELSE CS

Got(s, p, comp) ==
    LET r == Row(s)
        x == Wind(Fx, CD, r, p, comp)
        up == Wind(Fx, CD, r, <<4, 0, 0>>, comp)
        sc == LET a == Scalar(Fx, r, p)  d == Scalar(CD, r, p)  deg == ((d.v \div d.g) \div 15) * 15
              IN  [v |-> -(a.v * (IF comp = "U" THEN SinD(deg) ELSE CosD(deg))), g |-> a.g]
    IN  CASE Bug = "scalar" -> sc
          [] Bug = "above" /\ p[1] > 0 -> up
          [] OTHER -> x

Weight(s, c) == IF Bug = "chunkN" THEN <<1, c.l - c.f + 1>> ELSE <<1, Len(sel)>>
GivenW(s) == IF Bug = "selw" THEN Given[s] ELSE Given[Row(s)]

Deliver == /\ phase = "deliver"
           /\ chunks # <<>>
           /\ LET c == Head(chunks) IN
                /\ out' = out \cup {[s |-> s, p |-> p, u |-> Got(s, p, "U"), v |-> Got(s, p, "V")] : s \in c.f..c.l, p \in Places}
                /\ wts' = wts \o [k \in 1..(c.l - c.f + 1) |-> [uni |-> Weight(c.f + k - 1, c), given |-> GivenW(c.f + k - 1)]]
           /\ chunks' = Tail(chunks)
           /\ phase' = IF Len(chunks) = 1 THEN "done" ELSE "deliver"
           /\ UNCHANGED <<sel, fixed>>

Next == Select \/ Cut \/ Deliver \/ (phase = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* tabulated nodes are reproduced *)
Nodes == \A o \in out : o.p[1] \in {0, 4} =>
    LET r == sel[o.s]
        w == IF "WS" \in fixed THEN 70 ELSE IF o.p[1] = 0 THEN Ws[r] ELSE Ws[r] + 20
        d == IF "WD" \in fixed THEN 45 ELSE IF o.p[1] = 0 THEN Wd[r] ELSE Wd[r] + 30
    IN  o.u.v = -(w * SinD(d)) * o.u.g /\ o.v.v = -(w * CosD(d)) * o.v.g

(* in between: three parts of the lower and one part of the upper wind *)
Between == \A o \in out : o.p[1] = 1 =>
    LET r == sel[o.s]
        W(k) == IF "WS" \in fixed THEN 70 ELSE IF k = 0 THEN Ws[r] ELSE Ws[r] + 20
        D(k) == IF "WD" \in fixed THEN 45 ELSE IF k = 0 THEN Wd[r] ELSE Wd[r] + 30
        mix(F(_)) == -(3 * W(0) * F(D(0)) + W(1) * F(D(1)))
    IN  4 * o.u.v = o.u.g * mix(SinD) /\ 4 * o.v.v = o.v.g * mix(CosD)

(* nothing gets lost, weights belong to the selected rows and sum up to one if uniform *)
Complete == phase = "done" =>
    /\ {o.s : o \in out} = 1..Len(sel)
    /\ Len(wts) = Len(sel)
    /\ \A k \in DOMAIN wts : wts[k].given = Given[sel[k]]
    /\ \A k \in DOMAIN wts : wts[k].uni[1] * Len(sel) = wts[k].uni[2]
Finishes == <>(phase = "done")
=============================================================================
