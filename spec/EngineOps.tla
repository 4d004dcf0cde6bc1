----------------------------- MODULE EngineOps -----------------------------
(***************************************************************************)
(* What the user may rely on about the registered engine.  reg is the      *)
(* number of the registered engine, 0 for none; n engines exist so far.    *)
(* Outcome(s, a, k) = <<accepted, engine registered afterwards, engines    *)
(* existing afterwards>> of action a on engine k.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Enter(s, k) == IF s.reg = 0 THEN <<TRUE, k, s.n>> ELSE <<FALSE, s.reg, s.n>>
Exit(s, k) == IF s.reg = k THEN <<TRUE, 0, s.n>> ELSE <<FALSE, s.reg, s.n>>
(* initializing the registered engine again has no effect *)
Initialize(s, k) == IF s.reg = k THEN <<TRUE, k, s.n>> ELSE Enter(s, k)
(* finalizing an engine that is not registered has no effect *)
Finalize(s, k) == <<TRUE, IF s.reg = k THEN 0 ELSE s.reg, s.n>>
Reset(s) == <<TRUE, 0, s.n>>
(* an engine created implicitly if there is none *)
Implicit(s) == IF s.reg = 0 THEN <<TRUE, s.n + 1, s.n + 1>> ELSE <<TRUE, s.reg, s.n>>
Create(s) == IF s.reg = 0 THEN <<TRUE, s.n + 1, s.n + 1>> ELSE <<FALSE, s.reg, s.n>>

Outcome(s, a, k) ==
    CASE a = "enter" -> Enter(s, k)
      [] a = "exit" -> Exit(s, k)
      [] a = "init" -> Initialize(s, k)
      [] a = "final" -> Finalize(s, k)
      [] a = "reset" -> Reset(s)
      [] a = "calc" -> Implicit(s)                                  \* calculation that succeeds
      [] a = "fail" -> <<FALSE, Implicit(s)[2], Implicit(s)[3]>>    \* calculation with a failing model
      [] a = "nest" -> Implicit(s)                                  \* model tries to enter another engine
      [] a = "get" -> Implicit(s)
      [] a = "getno" -> <<s.reg # 0, s.reg, s.n>>                   \* without default
      [] a = "getnew" -> Implicit(s)                                \* default given as parameters
      [] a = "getobj" -> IF s.reg = 0 THEN <<TRUE, k, s.n>> ELSE <<TRUE, s.reg, s.n>>
      [] a = "algo" -> Create(s)                                    \* engine parameters of an algorithm
      [] a = "map" -> IF s.reg = k THEN <<TRUE, k, s.n>> ELSE <<TRUE, s.reg, s.n>>
      [] a = "with" -> IF s.reg = 0 THEN <<TRUE, 0, s.n>> ELSE <<FALSE, s.reg, s.n>>
      [] a = "withfail" -> <<FALSE, s.reg, s.n>>                    \* body raises: the engine is left
      [] a = "drop" -> <<TRUE, s.reg, s.n>>                         \* a refused engine is forgotten
=============================================================================
