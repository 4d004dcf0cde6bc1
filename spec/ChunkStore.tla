----------------------------- MODULE ChunkStore -----------------------------
(***************************************************************************)
(* Chunks of a calculation store data and look them up, in any order.  The *)
(* states are split into chunks of the sizes SP, the targets into chunks   *)
(* of the sizes TP (<<0>> for data without targets); Split selects both.   *)
(* Stored values are numbered, so that a value tells who stored it and when.                 *)
(* Bug = "start":  predecessors are chunks that start where the asking one *)
(*                 ends                                                    *)
(* Bug = "state":  the position in target direction is ignored             *)
(* Bug = "once":   only one step back is made                              *)
(* Bug = "merge":  a second value of the same name is not stored           *)
(* Bug = "keep":   a reset keeps the data                                  *)
(***************************************************************************)
EXTENDS ChunkOps, TLC, Json

CONSTANTS Split, MaxLen, Bug, Emit

SP == IF Split = 1 THEN <<2, 1, 3>> ELSE IF Split = 2 THEN <<1, 1, 1, 1>> ELSE <<3, 2>>
TP == IF Split = 1 THEN <<1, 2>> ELSE IF Split = 2 THEN <<0>> ELSE <<2, 2, 1>>

VARIABLES store, ghost, n, len, fresh, last, script
vars == <<store, ghost, n, len, fresh, last, script>>

RECURSIVE Start(_, _)
Start(sizes, k) == IF k = 1 THEN 0 ELSE Start(sizes, k - 1) + sizes[k - 1]
Chunks == (DOMAIN SP) \X (DOMAIN TP)

Init == /\ store = {} /\ ghost = [c \in Chunks |-> 0] /\ n = 0
        /\ len = 0 /\ fresh = FALSE
        /\ last = [ask |-> <<1, 1, 0, 0>>, got |-> {}] /\ script = <<>>

Did(what) == /\ len' = len + 1
             /\ fresh' = (what[1] = "ask")
             /\ script' = IF Emit THEN Append(script, what) ELSE script

Put(c) ==
    LET i == Start(SP, c[1])  t == Start(TP, c[2])
        old == { x \in store : x.i = i /\ x.t = t }
    IN  /\ n' = n + 1
        /\ store' = IF old # {} /\ Bug = "merge" THEN store
                    ELSE (store \ old) \cup {[i |-> i, n |-> SP[c[1]], t |-> t, m |-> TP[c[2]], val |-> n + 1]}
        /\ ghost' = [ghost EXCEPT ![c] = n + 1]
        /\ Did(<<"put", c[1], c[2], 0, 0>>)
        /\ last' = [last EXCEPT !.got = {}]

Ask(c, ps, pt) ==
    LET i == Start(SP, c[1])  t == Start(TP, c[2])
        k == IF Bug = "once" /\ ps > 0 THEN 1 ELSE ps
        w == IF Bug = "state" THEN { x \in store : x.i \in WalkS({ [y EXCEPT !.t = t] : y \in store }, i, t, k) }
             ELSE IF Bug = "start" /\ ps = 1 THEN { x \in store : x.t = t /\ x.i = i + SP[c[1]] }
             ELSE { x \in store : <<x.i, x.t>> \in Found(store, i, t, k, pt) }
    IN  /\ last' = [ask |-> <<c[1], c[2], ps, pt>>, got |-> { x.val : x \in w }]
        /\ Did(<<"ask", c[1], c[2], ps, pt>>)
        /\ UNCHANGED <<store, ghost, n>>

Reset == /\ store' = IF Bug = "keep" THEN store ELSE {}
         /\ ghost' = [c \in Chunks |-> 0]
         /\ Did(<<"reset", 1, 1, 0, 0>>)
         /\ last' = [last EXCEPT !.got = {}]
         /\ UNCHANGED n

Next == /\ len < MaxLen
        /\ \/ \E c \in Chunks : Put(c)
           \/ \E c \in Chunks, ps \in 0..2, pt \in 0..1 : (Len(TP) > 1 \/ pt = 0) /\ Ask(c, ps, pt)
           \/ Reset
Spec == Init /\ [][Next]_vars

Target(a) == <<a[1] - a[3], a[2] - a[4]>>
Fresh == fresh
Passed(a) == { <<a[1], a[2] - k>> : k \in 1..a[4] } \cup { <<a[1] - k, a[2] - a[4]>> : k \in 1..a[3] }
NothingElse == Fresh => \A v \in last.got : (Target(last.ask) \in Chunks) /\ v = ghost[Target(last.ask)]
FoundAgain == Fresh /\ Target(last.ask) \in Chunks /\ ghost[Target(last.ask)] # 0
                /\ (\A c \in Passed(last.ask) : ghost[c] # 0)
              => last.got = {ghost[Target(last.ask)]}
Behaviour == IF Emit /\ len = MaxLen THEN PrintT("BEH|" \o ToJson(script)) ELSE TRUE
=============================================================================
