----------------------------- MODULE EngineLife -----------------------------
(***************************************************************************)
(* Mechanism of engine registration: every engine knows whether it was     *)
(* entered and whether it is initialised; one global slot holds the        *)
(* registered engine.  The default engine (number D) hands over to a       *)
(* worker engine (number W) for each calculation and takes the slot back.  *)
(* Bug = "stuck": a refused engine stays entered; "lost": the default      *)
(* engine does not return after a failure; "steal": a second engine takes  *)
(* the slot; "clear": forgetting a refused engine clears the slot.         *)
(***************************************************************************)
EXTENDS EngineOps, TLC, Json

CONSTANTS NEngines, MaxLen, Bug, Emit

D == NEngines
W == NEngines + 1

VARIABLES slot, entered, inited, pc, before, failing, hist, spec
vars == <<slot, entered, inited, pc, before, failing, hist, spec>>

Init == /\ slot = 0 /\ entered = {} /\ inited = {} /\ pc = "idle"
        /\ before = 0 /\ failing = FALSE /\ hist = <<>>
        /\ spec = [reg |-> 0, n |-> NEngines]

Step(a, k) ==
    /\ pc = "idle" /\ Len(hist) < MaxLen
    /\ hist' = Append(hist, <<a, k>>)
    /\ LET o == Outcome(spec, a, k) IN spec' = [reg |-> o[2], n |-> NEngines]

Register(k) == slot' = k /\ entered' = entered \cup {k} /\ inited' = inited \cup {k}
Release(k) == slot' = (IF k \in inited THEN 0 ELSE slot) /\ entered' = entered \ {k} /\ inited' = inited \ {k}
Refuse(k) ==
    /\ entered' = IF Bug = "stuck" THEN entered \cup {k} ELSE entered
    /\ slot' = IF Bug = "steal" THEN k ELSE slot
    /\ inited' = inited

TryEnter(k) == IF slot = 0 THEN Register(k) ELSE Refuse(k)

EnterA(k) ==
    /\ Step("enter", k)
    /\ IF k \in entered THEN UNCHANGED <<slot, entered, inited>> ELSE TryEnter(k)
    /\ UNCHANGED <<pc, before, failing>>
InitA(k) ==
    /\ Step("init", k)
    /\ IF k \in inited \/ k \in entered THEN UNCHANGED <<slot, entered, inited>> ELSE TryEnter(k)
    /\ UNCHANGED <<pc, before, failing>>
ExitA(k) ==
    /\ Step("exit", k)
    /\ IF k \in entered THEN Release(k) ELSE UNCHANGED <<slot, entered, inited>>
    /\ UNCHANGED <<pc, before, failing>>
FinalA(k) ==
    /\ Step("final", k)
    /\ IF k \in entered THEN Release(k) ELSE UNCHANGED <<slot, entered, inited>>
    /\ UNCHANGED <<pc, before, failing>>
ResetA ==
    /\ Step("reset", 0)
    /\ IF slot # 0 THEN Release(slot) ELSE UNCHANGED <<slot, entered, inited>>
    /\ UNCHANGED <<pc, before, failing>>
DropA(k) ==
    /\ k # slot /\ Step("drop", k)
    /\ slot' = IF Bug = "clear" THEN 0 ELSE slot
    /\ entered' = entered \ {k} /\ inited' = inited \ {k}
    /\ UNCHANGED <<pc, before, failing>>

(* a calculation under the registered engine *)
Calc(f) ==
    /\ slot # 0
    /\ Step(IF f THEN "fail" ELSE "calc", 0)
    /\ before' = slot /\ failing' = f
    /\ IF slot = D THEN pc' = "hand" /\ Release(D) ELSE pc' = "idle" /\ UNCHANGED <<slot, entered, inited>>
Hand == pc = "hand" /\ pc' = "work" /\ Register(W) /\ UNCHANGED <<before, failing, hist, spec>>
Work == pc = "work" /\ pc' = "back" /\ Release(W) /\ UNCHANGED <<before, failing, hist, spec>>
Back == /\ pc = "back" /\ pc' = "idle"
        /\ IF failing /\ Bug = "lost" THEN UNCHANGED <<slot, entered, inited>> ELSE Register(D)
        /\ UNCHANGED <<before, failing, hist, spec>>

Next ==
    \/ \E k \in 1..NEngines : EnterA(k) \/ InitA(k) \/ ExitA(k) \/ FinalA(k) \/ DropA(k)
    \/ ResetA \/ Calc(TRUE) \/ Calc(FALSE) \/ Hand \/ Work \/ Back
Spec == Init /\ [][Next]_vars

AtMostOne == inited \subseteq {slot} /\ (slot # 0 => slot \in inited)
NoneStuck == entered = inited
AsPromised == pc = "idle" => slot = spec.reg
BackAfterCalc == pc = "idle" /\ hist # <<>> /\ hist[Len(hist)][1] \in {"calc", "fail"} => slot = before

Behaviour == (Emit /\ pc = "idle" /\ Len(hist) = MaxLen) => PrintT("BEH|" \o ToJson(hist))
=============================================================================
