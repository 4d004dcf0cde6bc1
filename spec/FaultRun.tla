------------------------------ MODULE FaultRun ------------------------------
(***************************************************************************)
(* Mechanism of a calculation: models are initialised one by one (their    *)
(* data are stored), set to running, the chunks run in any order, their    *)
(* results are combined, the models are set back.  The failure of a call   *)
(* happens at a chosen stage.                                              *)
(* Bug = "norestore": models stay in running mode after a failure;         *)
(* "halfinit": a model counts as initialised although its data are         *)
(* missing; "partial": chunks that did complete are returned as the        *)
(* result; "stale": chunk results of a failed call take part in the next   *)
(* one; "skip": a failing step counts as completed.                        *)
(***************************************************************************)
EXTENDS FaultOps, TLC, Json

CONSTANTS NModels, NChunks, NStates, Ops, Stages, MaxLen, Bug, Emit

Models == 1..NModels
Chunks == 1..NChunks
VARIABLES pc, op, stage, inited, data, running, todo, got, seq, out, hist, spec
vars == <<pc, op, stage, inited, data, running, todo, got, seq, out, hist, spec>>

Init == /\ pc = "idle" /\ op = "" /\ stage = "none" /\ inited = {} /\ data = {} /\ running = {}
        /\ todo = {} /\ got = {} /\ seq = 0 /\ out = <<TRUE, 0>> /\ hist = <<>> /\ spec = <<TRUE, 0, 0>>

Call(o, s) ==
    /\ pc = "idle" /\ Len(hist) < MaxLen
    /\ op' = o /\ stage' = s /\ hist' = Append(hist, <<o, s>>)
    /\ todo' = Chunks
    /\ got' = IF Bug = "stale" THEN got ELSE {}
    /\ pc' = IF o = "seq" /\ seq = NStates THEN "end" ELSE "init"
    /\ UNCHANGED <<inited, data, running, seq, out, spec>>

(* a call whose models are running already is refused *)
InitModel(m) ==
    /\ pc = "init" /\ running = {} /\ m \notin inited
    /\ IF stage = "init" THEN /\ pc' = "raise" /\ data' = data
                              /\ inited' = IF Bug = "halfinit" THEN inited \cup {m} ELSE inited
       ELSE pc' = pc /\ data' = data \cup {m} /\ inited' = inited \cup {m}
    /\ UNCHANGED <<op, stage, running, todo, got, seq, out, hist, spec>>
Refused == pc = "init" /\ running # {} /\ pc' = "raise" /\ UNCHANGED <<op, stage, inited, data, running, todo, got, seq, out, hist, spec>>
Start == /\ pc = "init" /\ running = {} /\ inited = Models
         /\ pc' = "run" /\ running' = Models
         /\ UNCHANGED <<op, stage, inited, data, todo, got, seq, out, hist, spec>>
Chunk(c) ==
    /\ pc = "run" /\ c \in todo
    /\ todo' = todo \ {c}
    /\ IF stage = "chunk" /\ c = NChunks THEN pc' = "unwind" /\ got' = got ELSE pc' = pc /\ got' = got \cup {c}
    /\ UNCHANGED <<op, stage, inited, data, running, seq, out, hist, spec>>
Combine ==
    /\ pc = "run" /\ todo = {}
    /\ pc' = IF stage = "combine" THEN "unwind" ELSE "done"
    /\ UNCHANGED <<op, stage, inited, data, running, todo, got, seq, out, hist, spec>>
Unwind ==
    /\ pc = "unwind"
    /\ running' = IF Bug = "norestore" THEN running ELSE {}
    /\ pc' = IF Bug = "partial" THEN "done" ELSE "raise"
    /\ UNCHANGED <<op, stage, inited, data, todo, got, seq, out, hist, spec>>
(* with all chunks at once a stale result is taken for a new one *)
Correct == got = Chunks /\ data = Models /\ (Bug # "stale" \/ Len(hist) = 1 \/ hist[Len(hist) - 1][2] = "none")
(* whether the chosen stage was reached at all *)
Failed == stage # "none" /\ ~out[1]
Tell(failed) ==
    LET o == Observed(spec[3], NStates, op, failed) IN spec' = o
Done ==
    /\ pc = "done" /\ pc' = "idle"
    /\ running' = IF Bug = "partial" THEN running ELSE {}
    /\ out' = <<TRUE, IF Correct THEN Value(seq, NStates, op) ELSE 0>>
    /\ seq' = IF op = "seq" THEN seq + 1 ELSE seq
    /\ got' = {}
    /\ Tell(stage \in {"chunk", "combine"})
    /\ UNCHANGED <<op, stage, inited, data, todo, hist>>
End ==
    /\ pc = "end" /\ pc' = "idle" /\ out' = <<TRUE, EndOfSteps>> /\ seq' = 0
    /\ Tell(FALSE)
    /\ UNCHANGED <<op, stage, inited, data, running, todo, got, hist>>
Raise ==
    /\ pc = "raise" /\ pc' = "idle" /\ out' = <<FALSE, 0>>
    /\ seq' = IF Bug = "skip" /\ op = "seq" THEN seq + 1 ELSE seq
    /\ Tell(stage # "none")
    /\ UNCHANGED <<op, stage, inited, data, running, todo, got, hist>>

Next ==
    \/ \E o \in Ops, s \in Stages : Call(o, s)
    \/ \E m \in Models : InitModel(m)
    \/ \E c \in Chunks : Chunk(c)
    \/ Refused \/ Start \/ Combine \/ Unwind \/ Done \/ End \/ Raise
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AsPromised == pc = "idle" => out = <<spec[1], spec[2]>>
StepsAgree == pc = "idle" => seq = spec[3]
NoneRunning == pc = "idle" => running = {}
DataThere == inited = data
Answers == [](pc # "idle" => <>(pc = "idle"))

Behaviour == (Emit /\ pc = "idle" /\ Len(hist) = MaxLen) => PrintT("BEH|" \o ToJson(hist))
=============================================================================
