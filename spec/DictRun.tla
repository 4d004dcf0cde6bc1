------------------------------ MODULE DictRun ------------------------------
(***************************************************************************)
(* Design of a session that runs dictionaries: reading creates and starts  *)
(* the engine, arguments overrule sections of the dictionary, farm and     *)
(* points are calculated, outputs run in order, and the engine ends, also  *)
(* if a step fails.  The dictionaries belong to the user.                  *)
(* Bug: "consume" takes entries out of the dictionary while reading,       *)
(* "sticky" writes overruled settings into it, "leak" leaves the engine    *)
(* of a failed run behind, "order" runs outputs last first.                *)
(***************************************************************************)
EXTENDS DictOps, TLC, Json

CONSTANTS MaxRuns, Bug, Emit

VARIABLES dict, engine, stage, job, log, past, hist
vars == <<dict, engine, stage, job, log, past, hist>>

Dicts == {1, 2}
Overs == {"none", "iterative", "engine", "models"}
Fails == {"none", "states", "model", "points", "output", "label"}
Orig == [d \in Dicts |-> [layouts |-> 1, algo |-> d, outs |-> <<1, 2>>]]
NoJob == [d |-> 0, over |-> "none", fail |-> "none"]

Init == /\ dict = Orig
        /\ engine = 0
        /\ stage = "idle"
        /\ job = NoJob
        /\ log = <<>>
        /\ past = <<>>
        /\ hist = <<>>

Start(j) == /\ stage = "idle" /\ Len(past) < MaxRuns
            /\ job' = j
            /\ stage' = "read"
            /\ log' = <<>>
            /\ hist' = Append(hist, ToString(j.d) \o " " \o j.over \o " " \o j.fail)
            /\ UNCHANGED <<dict, engine, past>>

Give(r) == /\ stage' = "idle"
           /\ past' = Append(past, [job |-> job, res |-> r])
           /\ job' = NoJob
           /\ UNCHANGED hist
Fail == /\ Give(<<0>>)
        /\ engine' = IF Bug = "leak" THEN engine ELSE 0
        /\ UNCHANGED log

Read == /\ stage = "read"
        /\ IF engine # 0 \/ dict[job.d].layouts = 0 \/ job.fail = "states"
           THEN Fail /\ UNCHANGED dict
           ELSE /\ dict' = IF Bug = "consume" THEN [dict EXCEPT ![job.d].layouts = 0]
                           ELSE IF Bug = "sticky" /\ job.over = "iterative" THEN [dict EXCEPT ![job.d].algo = 10]
                           ELSE dict
                /\ engine' = 1
                /\ stage' = "calc"
                /\ UNCHANGED <<job, log, past, hist>>
Algo == IF job.over = "iterative" THEN 10 ELSE Setting(dict[job.d].algo, IF job.over = "models" THEN 20 ELSE 0, 0)
Calc == /\ stage = "calc"
        /\ IF job.fail \in {"model", "points"}
           THEN Fail /\ UNCHANGED dict
           ELSE /\ stage' = "out"
                /\ UNCHANGED <<dict, engine, job, log, past, hist>>
Out == /\ stage = "out"
       /\ IF Len(log) < 2
          THEN IF Len(log) = 1 /\ job.fail \in {"output", "label"}
               THEN Fail /\ UNCHANGED dict
               ELSE /\ log' = Append(log, dict[job.d].outs[IF Bug = "order" THEN 2 - Len(log) ELSE Len(log) + 1])
                    /\ UNCHANGED <<dict, engine, stage, job, past, hist>>
          ELSE /\ Give(<<Algo>> \o log)
               /\ engine' = 0
               /\ UNCHANGED <<dict, log>>
Next == \/ \E j \in [d : Dicts, over : Overs, fail : Fails] : Start(j)
        \/ Read \/ Calc \/ Out
        \/ (stage = "idle" /\ Len(past) = MaxRuns /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Read \/ Calc \/ Out)

Released == stage = "idle" => engine = 0
Whole == dict = Orig
Want(j) == IF j.fail # "none" THEN <<0>>
           ELSE <<IF j.over = "iterative" THEN 10 ELSE IF j.over = "models" THEN 20 ELSE j.d, 1, 2>>
Same == \A k \in DOMAIN past : past[k].res = Want(past[k].job)
Ends == []<>(stage = "idle")

Behaviour == (Emit /\ stage = "idle" /\ Len(past) = MaxRuns) => PrintT("BEH|" \o ToJson(hist))
=============================================================================
