------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* Validation of recorded executions.  A trace specification extends this  *)
(* module and supplies                                                     *)
(*   TInit(cfg)    the abstract state before the first event               *)
(*   Viol(st, e)   the names of the clauses that event e breaks in st      *)
(*   Apply(st, e)  the abstract state after e                              *)
(*   TEnd(st)      the names of clauses broken at the end of the trace     *)
(* Verdicts are total: every refused event is printed with the clause that *)
(* refuses it, and every trace ends in an END line.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS TInit(_), Viol(_, _), Apply(_, _), TEnd(_)

VARIABLES trNo, evNo, ast

TR == JsonDeserialize(IOEnv.VF_TRACES)

Say(k, n, cs) == \A c \in cs :
    PrintT("BAD|" \o ToString(k) \o "|" \o ToString(n) \o "|" \o c)

RInit == /\ trNo \in 1..Len(TR)
         /\ evNo = 0
         /\ ast = TInit(TR[trNo].cfg)

RNext ==
    \/ /\ evNo < Len(TR[trNo].ev)
       /\ LET e == TR[trNo].ev[evNo + 1]
          IN  /\ Say(trNo, evNo + 1, Viol(ast, e))
              /\ ast' = Apply(ast, e)
       /\ evNo' = evNo + 1
       /\ UNCHANGED trNo
    \/ /\ evNo = Len(TR[trNo].ev)
       /\ Say(trNo, evNo, TEnd(ast))
       /\ PrintT("END|" \o ToString(trNo))
       /\ evNo' = evNo + 1
       /\ UNCHANGED <<trNo, ast>>
=============================================================================
