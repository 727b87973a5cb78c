----------------------------- MODULE NdarrayMC -----------------------------
(***************************************************************************)
(* Views of arrays: every layout reached by a few view operations from a   *)
(* dense array, and that storing it in the order IsFortran chooses and     *)
(* reading it back into a dense array of that order restores every element *)
(* at its index; and that an array found contiguous can be read linearly   *)
(* from its first address.  Each layout is printed with the operations     *)
(* that lead to it.                                                        *)
(***************************************************************************)
EXTENDS Ndarray, TLC, Json
CONSTANTS Depth, Shapes

VARIABLES base, sh, sd, off, ops
vars == <<base, sh, sd, off, ops>>

S1 == {<<>>, <<1>>, <<3>>, <<0>>, <<2, 3>>, <<3, 1>>, <<1, 3>>, <<2, 0>>, <<2, 2, 3>>, <<1, 2, 1>>}
S2 == S1 \cup {<<4>>, <<4, 3>>, <<3, 3, 2>>, <<2, 1, 2, 2>>, <<0, 3, 2>>}
ShapeSet == IF Shapes = "some" THEN S1 ELSE S2

Init == /\ \E s \in ShapeSet : \E o \in {"C", "F"} :
             base = [sh |-> s, order |-> o] /\ sh = s /\ sd = DenseStrides(s, o, 1)
        /\ off = 0 /\ ops = <<>>

Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Flip(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Do(name, i, s, d, o) ==
    /\ Len(ops) < Depth
    /\ sh' = s /\ sd' = d /\ off' = o
    /\ ops' = Append(ops, [v |-> name, i |-> i]) /\ UNCHANGED base

Transpose == Len(sh) > 1 /\ Do("T", 0, Flip(sh), Flip(sd), off)
Swap(i)   == i < Len(sh) /\ Len(sh) > 2
             /\ LET f(s) == [s EXCEPT ![i] = s[i+1], ![i+1] = s[i]] IN Do("swap", i, f(sh), f(sd), off)
Backwards(i) == sh[i] > 0 /\ Do("rev", i, sh, [sd EXCEPT ![i] = -sd[i]], off + sd[i] * (sh[i] - 1))
Step2(i)   == sh[i] > 1 /\ Do("step", i, [sh EXCEPT ![i] = (sh[i] + 1) \div 2], [sd EXCEPT ![i] = 2 * sd[i]], off)
Tail1(i)   == sh[i] > 0 /\ Do("tail", i, [sh EXCEPT ![i] = sh[i] - 1], sd, off + sd[i])
Init1(i)   == sh[i] > 0 /\ Do("init", i, [sh EXCEPT ![i] = sh[i] - 1], sd, off)
Pick(i)    == sh[i] > 0 /\ Do("pick", i, Drop(sh, i), Drop(sd, i), off + sd[i] * (sh[i] - 1))
Empty(i)   == Do("empty", i, [sh EXCEPT ![i] = 0], sd, off)
New(i)     == Len(sh) < 4 /\ Do("new", i, Ins(sh, i, 1), Ins(sd, i, 0), off)
Broad      == Len(sh) < 4 /\ Do("broadcast", 1, Ins(sh, 1, 2), Ins(sd, 1, 0), off)
Next == \/ Transpose \/ Broad
        \/ \E i \in Axes(sh) : Swap(i) \/ Backwards(i) \/ Step2(i) \/ Tail1(i) \/ Init1(i) \/ Pick(i) \/ Empty(i)
        \/ \E i \in 1..(Len(sh) + 1) : New(i)
Spec == Init /\ [][Next]_vars
View == <<sh, sd, off, Len(ops)>>

MyOrder == Order(sh, sd, 1)
Stored  == Elements(sh, sd, off, MyOrder)
\* element k of what was stored is at address k of the new array
Restored == \A k \in 0..(Count(sh) - 1) :
               LET idx == IndexAt(sh, "C", k)
               IN  Stored[At(DenseStrides(sh, MyOrder, 1), 0, idx) + 1] = At(sd, off, idx)
\* contiguous: the elements are stored one after the other from the first
Linear == (CContig(sh, sd, 1) \/ FContig(sh, sd, 1)) =>
             \A k \in 1..Count(sh) : Stored[k] = off + k - 1
\* the order is kept: the new array is Fortran contiguous only iff the old one was
KeepsOrder == Order(sh, DenseStrides(sh, MyOrder, 1), 1) = MyOrder

Emit == PrintT("@H " \o ToJson([base |-> base, ops |-> ops', sh |-> sh', order |-> Order(sh', sd', 1)]))
=============================================================================
