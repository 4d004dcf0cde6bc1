------------------------------ MODULE Chunking ------------------------------
(***************************************************************************)
(* Splitting n items into consecutive chunks, as the engines do it, and    *)
(* what any such splitting has to satisfy.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

(* Position of the first item of chunk k *)
Start(s, k) == SumSeq(SubSeq(s, 1, k - 1))
Items(s, k) == (Start(s, k) + 1) .. (Start(s, k) + s[k])

(* m chunks of size q, the last ones one item larger, as calc_chunk_sizes does *)
Spread(n, m, q) ==
    LET extra == n - m * q
    IN  [k \in 1..m |-> IF k > m - extra THEN q + 1 ELSE q]

(* chunk sizes along the state axis: size = 0 stands for "not given" *)
StateChunks(n, procs, size) ==
    IF size = 0
    THEN Spread(n, Mn(procs, n), Mx(n \div procs, 1))
    ELSE LET q == Mn(n, size)
             m == Mx(n \div q, 1)
         IN  IF n \div m > q THEN Spread(n, m + 1, n \div (m + 1))
             ELSE Spread(n, m, q)

(* What every splitting has to be: a partition in order *)
IsPartition(s, n) ==
    /\ Len(s) >= 1
    /\ \A k \in DOMAIN s : s[k] >= 1
    /\ SumSeq(s) = n
    /\ LET off == [k \in DOMAIN s |-> Start(s, k)] IN
       \A i \in 1..n : Cardinality({k \in DOMAIN s : off[k] < i /\ i <= off[k] + s[k]}) = 1

(* The chunk and the position within the chunk of item i, and back *)
ChunkOf(s, i) == CHOOSE k \in DOMAIN s : i \in Items(s, k)
=============================================================================
