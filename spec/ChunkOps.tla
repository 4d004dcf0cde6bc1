------------------------------- MODULE ChunkOps -----------------------------
(***************************************************************************)
(* Chunk data and the chunk store.                                         *)
(* A data entry is a record [name, dims, arr], arr nested sequences with   *)
(* one level per dimension.  A selection of a dimension is                 *)
(*   [kind |-> "slice", a |-> <<lo, hi>>]   positions lo .. hi - 1         *)
(*   [kind |-> "list",  a |-> positions]                                   *)
(*   [kind |-> "mask",  a |-> <<0, 1, 1>>]                                 *)
(* Positions count from zero.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE MaskOn(_, _)
MaskOn(a, k) == IF k > Len(a) THEN <<>> ELSE (IF a[k] = 1 THEN <<k - 1>> ELSE <<>>) \o MaskOn(a, k + 1)

Least(a, b) == IF a < b THEN a ELSE b
Picks(sel, n) ==
    IF sel.kind = "slice" THEN [k \in 1..(Least(sel.a[2], n) - sel.a[1]) |-> sel.a[1] + k - 1]
    ELSE IF sel.kind = "list" THEN sel.a
    ELSE MaskOn(sel.a, 1)

\* the part of an array selected by pick[d], for all dimensions d in DOMAIN pick;
\* entries that hold one value for all positions of a dimension keep it
RECURSIVE Cut(_, _, _)
Cut(dims, arr, pick) ==
    IF dims = <<>> THEN arr
    ELSE LET d == Head(dims)
         IN  IF d \in DOMAIN pick /\ ~(Len(arr) = 1 /\ pick[d].n # 1)
             THEN [k \in 1..Len(pick[d].p) |-> Cut(Tail(dims), arr[pick[d].p[k] + 1], pick)]
             ELSE [k \in 1..Len(arr) |-> Cut(Tail(dims), arr[k], pick)]

Contiguous(p) == \A k \in 1..(Len(p) - 1) : p[k + 1] = p[k] + 1

\* extent of an array along its k-th dimension
RECURSIVE Extent(_, _)
Extent(arr, k) == IF k = 1 THEN Len(arr) ELSE Extent(arr[1], k - 1)

\* sizes of the dimensions, given by the entries of an object
SizeOf(entries, d) ==
    LET at == { x \in (DOMAIN entries) \X (1..5) : x[2] <= Len(entries[x[1]].dims) /\ entries[x[1]].dims[x[2]] = d }
        ns == { Extent(entries[x[1]].arr, x[2]) : x \in at }
    IN  IF ns = {} THEN 0 ELSE CHOOSE n \in ns : \A m \in ns : n >= m

Names(entries) == { entries[i].name : i \in DOMAIN entries }
Entry(entries, v) == LET i == CHOOSE i \in DOMAIN entries : entries[i].name = v IN entries[i]

\* does an object accept a new entry of shape shp with these dimensions?
\* sizes: those of the object so far, 0 where unknown
Fits(kind, name, dims, shp, sizes, leading, coords) ==
    /\ Len(dims) = Len(shp)
    /\ \A k \in DOMAIN dims : \/ sizes[dims[k]] \in {0, 1} \/ shp[k] = 1 \/ shp[k] = sizes[dims[k]]
    /\ \/ kind = "mdata" \/ name \in coords
       \/ /\ Len(dims) >= Len(leading)
          /\ \A k \in DOMAIN leading : dims[k] = leading[k]

-----------------------------------------------------------------------------
\* The chunk store: records [i, n, t, m, vals], chunk of n states from i on and
\* m targets from t on.  A chunk is found by walking back chunk by chunk, first in
\* the direction of targets.
RECURSIVE WalkT(_, _, _, _), WalkS(_, _, _, _)
WalkT(store, i, t, k) ==
    IF k = 0 THEN {t}
    ELSE LET c == { x \in store : x.i = i /\ x.t + x.m = t /\ x.m > 0 }
         IN  IF c = {} THEN {} ELSE UNION { WalkT(store, i, x.t, k - 1) : x \in c }
WalkS(store, i, t, k) ==
    IF k = 0 THEN {i}
    ELSE LET c == { x \in store : x.t = t /\ x.i + x.n = i }
         IN  IF c = {} THEN {} ELSE UNION { WalkS(store, x.i, t, k - 1) : x \in c }
Found(store, i, t, ps, pt) ==
    UNION { { <<i2, t2>> : i2 \in WalkS(store, i, t2, ps) } : t2 \in WalkT(store, i, t, pt) }
=============================================================================
