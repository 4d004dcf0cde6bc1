------------------------------ MODULE EngineRun ------------------------------
(***************************************************************************)
(* One engine calculation: the input is cut into (state, target) chunks,   *)
(* every chunk is submitted once, workers execute chunks concurrently in   *)
(* any order, results are collected in the order of submission and joined. *)
(*                                                                         *)
(* While a chunk runs it first puts intermediate data into the chunk store *)
(* of the algorithm object it was given (rotor points, ambient results)    *)
(* and later reads them back; in iterative runs it finally takes the store *)
(* out of the object.  If Shared, all workers hold the same algorithm      *)
(* object, otherwise each has its own copy.                                *)
(***************************************************************************)
EXTENDS Chunking, TLC

CONSTANTS NStates, NTargets, Procs, SizeS, SizeT, Workers, Shared, Iterative

CS == StateChunks(NStates, Procs, SizeS)
CT == IF NTargets = 0 THEN <<0>> ELSE StateChunks(NTargets, Procs, SizeT)

ASSUME IsPartition(CS, NStates)
ASSUME NTargets > 0 => IsPartition(CT, NTargets)

Keys == (DOMAIN CS) \X (DOMAIN CT)
Cells == (1..NStates) \X (1..Mx(NTargets, 1))
CellsOf(k) == Items(CS, k[1]) \X (IF NTargets = 0 THEN {1} ELSE Items(CT, k[2]))

(* the value a single-chunk run computes for a cell *)
F(c) == c

VARIABLES
    phase,      \* key -> "todo" | "fetched" | "stored" | "done" | "failed"
    worker,     \* key -> worker executing it, or 0
    obj,        \* store object held by each algorithm copy
    heap,       \* store object -> set of keys present
    nobj,       \* number of store objects allocated
    res,        \* key -> set of <<cell, value>> computed
    coll,       \* keys collected, in order
    out         \* joined result

vars == <<phase, worker, obj, heap, nobj, res, coll, out>>

MaxObj == 2 * Cardinality(Keys) + 2
Algo(w) == IF Shared THEN 1 ELSE w
Algos == IF Shared THEN {1} ELSE 1..Workers

Init == /\ phase = [k \in Keys |-> "todo"]
        /\ worker = [k \in Keys |-> 0]
        /\ obj = [a \in Algos |-> 1]
        /\ heap = [o \in 1..MaxObj |-> {}]
        /\ nobj = 1
        /\ res = [k \in Keys |-> {}]
        /\ coll = <<>>
        /\ out = {}

Idle(w) == \A k \in Keys : worker[k] # w

(* reset_chunk_store(chunk_store): the object handed in is installed.  Copies
   (separate processes, deep copies) get their own content. *)
Start_(k, w) ==
    /\ phase[k] = "todo" /\ Idle(w)
    /\ worker' = [worker EXCEPT ![k] = w]
    /\ phase' = [phase EXCEPT ![k] = "fetched"]
    /\ IF Shared
       THEN /\ obj' = [obj EXCEPT ![1] = 1]
            /\ UNCHANGED <<heap, nobj>>
       ELSE /\ nobj' = nobj + 1
            /\ obj' = [obj EXCEPT ![w] = nobj']
            /\ heap' = [heap EXCEPT ![nobj'] = {}]
    /\ UNCHANGED <<res, coll, out>>

(* add_to_chunk_store *)
Store(k) ==
    /\ phase[k] = "fetched"
    /\ heap' = [heap EXCEPT ![obj[Algo(worker[k])]] = @ \cup {k}]
    /\ phase' = [phase EXCEPT ![k] = "stored"]
    /\ UNCHANGED <<worker, obj, nobj, res, coll, out>>

(* get_from_chunk_store and the calculation; then the store is taken out *)
Finish(k) ==
    /\ phase[k] = "stored"
    /\ LET a == Algo(worker[k]) IN
       /\ IF k \in heap[obj[a]]
          THEN /\ phase' = [phase EXCEPT ![k] = "done"]
               /\ res' = [res EXCEPT ![k] = {<<c, F(c)>> : c \in CellsOf(k)}]
          ELSE /\ phase' = [phase EXCEPT ![k] = "failed"]
               /\ UNCHANGED res
       /\ IF Iterative
          THEN /\ nobj' = nobj + 1
               /\ obj' = [obj EXCEPT ![a] = nobj']
               /\ heap' = [heap EXCEPT ![nobj'] = {}]
          ELSE UNCHANGED <<nobj, obj, heap>>
    /\ worker' = [worker EXCEPT ![k] = 0]
    /\ UNCHANGED <<coll, out>>

KeySeq == [n \in 1..(Len(CS) * Len(CT)) |-> <<((n - 1) \div Len(CT)) + 1, ((n - 1) % Len(CT)) + 1>>]

(* results are taken in submission order, waiting where necessary *)
Collect ==
    /\ Len(coll) < Len(KeySeq)
    /\ LET k == KeySeq[Len(coll) + 1] IN
       /\ phase[k] = "done"
       /\ coll' = Append(coll, k)
       /\ out' = out \cup res[k]
    /\ UNCHANGED <<phase, worker, obj, heap, nobj, res>>

Next == \/ \E k \in Keys, w \in 1..Workers : Start_(k, w)
        \/ \E k \in Keys : Store(k) \/ Finish(k)
        \/ Collect

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Complete == Len(coll) = Len(KeySeq)

(* no chunk ever misses its own stored data *)
StoreIntact == \A k \in Keys : phase[k] # "failed"
(* every cell exactly once, with the single-chunk value *)
ResultRight == Complete => out = {<<c, F(c)>> : c \in Cells}
EachOnce == \A c \in Cells : Cardinality({k \in Keys : c \in CellsOf(k)}) = 1
Terminates == <>Complete
=============================================================================
