------------------------------ MODULE WakeTime ------------------------------
(***************************************************************************)
(* Wakes of one turbine on a line, calculated over chunks of times.  Every *)
(* chunk advances the parcels that it emits and those handed over by the   *)
(* chunk before.  Two inflows that agree before time Tau are followed at   *)
(* once.                                                                   *)
(***************************************************************************)
EXTENDS WakeTimeOps, TLC

CONSTANTS NT, Age, Bug

VARIABLES dA, dB, tau, size, t, puffs, res

vars == <<dA, dB, tau, size, t, puffs, res>>
Moves == {<<1, 0>>, <<2, 0>>}
T0 == <<0, 0>>
Places == {<<x, 0>> : x \in 1..(2 * NT)}

Init == /\ dA \in [1..NT -> Moves]
        /\ tau \in 1..NT
        /\ dB \in [1..NT -> Moves]
        /\ \A k \in 1..NT : k < tau => dB[k] = dA[k]
        /\ size \in 1..NT
        /\ t = 0
        /\ puffs = [r \in {"A", "B"} |-> {}]
        /\ res = [r \in {"A", "B"} |-> <<>>]

D(r) == IF r = "A" THEN dA ELSE dB
Starts(n) == n % size = 1 \/ size = 1

(* the move applied between time n-1 and n *)
Used(r, n) == IF Bug = "next" THEN D(r)[n]
              ELSE IF Bug = "ahead" /\ n < NT THEN D(r)[n + 1]
              ELSE D(r)[n - 1]

Aged(r, n) == {[e |-> q.e, x |-> q.x + (IF Bug = "still" THEN 0 ELSE Used(r, n)[1])] : q \in puffs[r]}
Kept(r, n) == IF Bug = "border" /\ Starts(n) THEN {}
              ELSE {q \in Aged(r, n) : n - q.e < Age + (IF Bug = "old" THEN 2 ELSE 0)}
Now(r, n) == Kept(r, n) \cup {[e |-> n, x |-> 0]}

(* the nearest parcel gives the source, if it is within its step *)
Source(r, n, p) ==
    LET near == {q \in Now(r, n) : \A o \in Now(r, n) : Abs(q.x - p[1]) <= Abs(o.x - p[1])}
        q == CHOOSE q \in near : \A o \in near : q.e <= o.e
    IN  IF Abs(p[1] - q.x) < D(r)[q.e][1] THEN q.e ELSE 0

Tick == /\ t < NT
        /\ t' = t + 1
        /\ puffs' = [r \in {"A", "B"} |-> Now(r, t + 1)]
        /\ res' = [r \in {"A", "B"} |-> Append(res[r], [p \in Places |-> Source(r, t + 1, p)])]
        /\ UNCHANGED <<dA, dB, tau, size>>
Next == Tick \/ (t = NT /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick)

NoFuture == \A n \in 1..(tau - 1) : n <= t => res["A"][n] = res["B"][n]
InTime == \A r \in {"A", "B"} : \A n \in 1..t : \A p \in Places :
    LET e == res[r][n][p] IN
    /\ Causal(e, n)
    /\ e > 0 => Arrived(D(r), T0, p, e, n) /\ Alive(D(r), e, n, Age, 1000)
Present == \A r \in {"A", "B"} : \A n \in 1..t : \A p \in Places :
    Found(D(r), T0, p, res[r][n][p], n, Age, 1000)
(* constant inflow: where the wake has arrived nothing changes with time, but the source moves along *)
Settles == \A r \in {"A", "B"} : \A n \in 1..t : \A p \in Places :
    (\A k \in 1..NT : D(r)[k] = <<1, 0>>) /\ p[1] < n /\ p[1] < Age - 1 => res[r][n][p] = n - p[1]
Finishes == <>(t = NT)
=============================================================================
