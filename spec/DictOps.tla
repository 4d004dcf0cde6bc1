------------------------------ MODULE DictOps ------------------------------
(***************************************************************************)
(* Calculations described by a dictionary.                                 *)
(*                                                                         *)
(* A setting is what an argument says, else what the dictionary says, else *)
(* the default (0: not given).                                             *)
(*                                                                         *)
(* The outputs are a list of calls.  A call is made on an output object    *)
(* (obj.kind = 0) or on the object behind a label; calls of outputs that   *)
(* need farm results are left out if there are none; arguments are literals*)
(* or labels, possibly with an index into a result of several parts; its   *)
(* result, or the parts of it, may get labels.  Results are tokens:        *)
(* 10 * c + i for part i of the result of call c, i = 0 for the whole.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Setting(dict, arg, default) == IF arg # 0 THEN arg ELSE IF dict # 0 THEN dict ELSE default

Token(c, i) == 10 * c + i
NoToken == -1

(* store: token behind each label; a result consists of one part or several *)
Resolve(store, ref) ==
    IF ref.kind = 0 THEN ref.val
    ELSE IF ref.val \notin DOMAIN store THEN NoToken
    ELSE IF ref.idx = 0 THEN store[ref.val] ELSE store[ref.val] + ref.idx

Known(store, call) == /\ Resolve(store, call.obj) # NoToken
                      /\ \A k \in DOMAIN call.args : Resolve(store, call.args[k]) # NoToken

(* labels for the whole result, or one for each part (0: none) *)
Labelled(store, c, call) ==
    LET n == Len(call.labels)
        New(l) == IF call.whole = 1 THEN Token(c, 0)
                  ELSE Token(c, CHOOSE k \in 1..n : call.labels[k] = l /\ \A j \in (k + 1)..n : call.labels[j] # l)
        ls == {call.labels[k] : k \in 1..n} \ {0}
    IN  [l \in (DOMAIN store) \cup ls |-> IF l \in ls THEN New(l) ELSE store[l]]

Seen(store, call) == [f |-> call.f, on |-> Resolve(store, call.obj),
                      args |-> [k \in DOMAIN call.args |-> Resolve(store, call.args[k])]]

(* what the calls find, up to the first that asks for an unknown label or breaks *)
RECURSIVE Play(_, _, _, _, _)
Play(calls, farm, c, store, log) ==
    IF c > Len(calls) THEN [log |-> log, ok |-> 1]
    ELSE IF calls[c].needs = 1 /\ farm = 0 THEN Play(calls, farm, c + 1, store, log)
    ELSE IF ~Known(store, calls[c]) THEN [log |-> log, ok |-> 0]
    ELSE LET l == Append(log, Seen(store, calls[c]))
         IN  IF calls[c].breaks = 1 THEN [log |-> l, ok |-> 0]
             ELSE Play(calls, farm, c + 1, Labelled(store, c, calls[c]), l)
NoLabels == [l \in {} |-> 0]
Outputs(calls, farm) == Play(calls, farm, 1, NoLabels, <<>>)

(* results handed back: those of every output, in order *)
Given(calls, farm, groups) ==
    LET First(g) == IF g = 1 THEN 1 ELSE 1 + groups[g - 1]
    IN  [g \in DOMAIN groups |-> [k \in 1..(groups[g] - First(g) + 1) |-> Token(First(g) + k - 1, 0)]]
=============================================================================
