------------------------------ MODULE Ndarray ------------------------------
(***************************************************************************)
(* The memory layout of arrays, what is stored for one, and what is made   *)
(* of it again.  A layout is a shape and the strides of its axes, in       *)
(* multiples of `unit`: bytes with the item size as unit in traces,        *)
(* elements with unit 1 in the model.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Axes(sh)  == 1..Len(sh)
Count(sh) == FoldLeft(LAMBDA a, b : a * b, 1, sh)
ProdAfter(sh, i)  == Count(SubSeq(sh, i + 1, Len(sh)))
ProdBefore(sh, i) == Count(SubSeq(sh, 1, i - 1))

\* axes of length one do not matter, nothing matters when there is no element
CContig(sh, sd, unit) == \/ Count(sh) = 0
                         \/ \A i \in Axes(sh) : sh[i] = 1 \/ sd[i] = unit * ProdAfter(sh, i)
FContig(sh, sd, unit) == \/ Count(sh) = 0
                         \/ \A i \in Axes(sh) : sh[i] = 1 \/ sd[i] = unit * ProdBefore(sh, i)
IsFortran(sh, sd, unit) == FContig(sh, sd, unit) /\ ~CContig(sh, sd, unit)
Order(sh, sd, unit) == IF IsFortran(sh, sd, unit) THEN "F" ELSE "C"

\* strides of a new array
DenseStrides(sh, order, unit) ==
    [i \in Axes(sh) |-> unit * (IF order = "C" THEN ProdAfter(sh, i) ELSE ProdBefore(sh, i))]

\* the k-th index (from 0) when the last (C) or the first (F) axis runs fastest
IndexAt(sh, order, k) ==
    [i \in Axes(sh) |-> (k \div (IF order = "C" THEN ProdAfter(sh, i) ELSE ProdBefore(sh, i))) % sh[i]]
At(sd, off, idx) == FoldLeft(LAMBDA a, b : a + b, off, [i \in DOMAIN idx |-> sd[i] * idx[i]])

\* the elements (their addresses) in the given order
Elements(sh, sd, off, order) ==
    [k \in 1..Count(sh) |-> At(sd, off, IndexAt(sh, order, k - 1))]

\* an array can be stored when its elements are of a size that Blosc takes,
\* and chunks (if there is more than one) hold whole elements
Storable(item) == item \in 1..255
ChunkFits(nbytes, cs, item) == cs >= nbytes \/ cs % item = 0
=============================================================================
