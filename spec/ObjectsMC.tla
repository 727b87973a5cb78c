----------------------------- MODULE ObjectsMC ------------------------------
(***************************************************************************)
(* All histories of a few objects of two kinds.  What an implementation    *)
(* keeps is modelled separately, as objects that refer to stores of        *)
(* values, so that one that copies by reference (Alias), or constructs     *)
(* with one store for all that is not given (Shared), is refuted.          *)
(***************************************************************************)
EXTENDS Objects, FiniteSets, TLC, Json
CONSTANTS Depth, MaxObjs, Alias, Shared

Kinds == {"a", "b"}
Names(k) == IF k = "a" THEN <<"p", "q">> ELSE <<"p", "r">>
Defaults(k) == <<0, 0>>
Values == {0, 1, 2}
Gives == UNION {[s -> Values] : s \in SUBSET {1, 2}}

VARIABLES objs,   \* what there is by the specification
          ref,    \* object -> its store
          heap,   \* the stores
          h
vars == <<objs, ref, heap, h>>

Init == objs = <<>> /\ ref = <<>> /\ heap = <<>> /\ h = <<>>

Pairs(g) == [p \in 1..2 |-> IF p \in DOMAIN g THEN g[p] ELSE -1]
Do(a, r2, s2) ==
    /\ Len(h) < Depth
    /\ objs' = After(Names, Defaults, objs, a)
    /\ ref' = r2 /\ heap' = s2
    /\ h' = Append(h, IF "g" \in DOMAIN a THEN [a EXCEPT !.g = Pairs(a.g)] ELSE a)

New == \E k \in Kinds, g \in Gives :
          /\ Len(objs) < MaxObjs
          /\ IF Shared /\ DOMAIN g = {} /\ \E i \in DOMAIN objs : objs[i].k = k
             THEN Do([act |-> "new", k |-> k, g |-> g],
                     Append(ref, ref[CHOOSE i \in DOMAIN objs : objs[i].k = k]), heap)
             ELSE Do([act |-> "new", k |-> k, g |-> g], Append(ref, Len(heap) + 1),
                     Append(heap, Given(Defaults(k), g)))
Set == \E i \in DOMAIN objs, g \in Gives :
          DOMAIN g # {} /\ Do([act |-> "set", i |-> i, g |-> g], ref, [heap EXCEPT ![ref[i]] = Given(@, g)])
Copy == \E i \in DOMAIN objs :
          /\ Len(objs) < MaxObjs
          /\ IF Alias THEN Do([act |-> "copy", i |-> i], Append(ref, ref[i]), heap)
             ELSE Do([act |-> "copy", i |-> i], Append(ref, Len(heap) + 1), Append(heap, heap[ref[i]]))
Move == \E i, j \in DOMAIN objs :
          i # j /\ Do([act |-> "move", i |-> i, j |-> j], ref,
                      IF objs[i].k = objs[j].k THEN [heap EXCEPT ![ref[j]] = heap[ref[i]]] ELSE heap)
Other == \E i \in DOMAIN objs, j \in 0..2, c \in {"read", "lend", "wrong", "del"} :
          (c \in {"wrong", "del"} => j = 0) /\ Do([act |-> c, i |-> i, j |-> j], ref, heap)
Next == New \/ Set \/ Copy \/ Move \/ Other
Spec == Init /\ [][Next]_vars

\* what is kept is what the specification says
Kept == \A i \in DOMAIN objs : heap[ref[i]] = objs[i].v
Fixed == \A i \in DOMAIN objs : DOMAIN objs[i].v = {1, 2}
\* one action changes at most one object
OneAtATime == [][Cardinality({i \in DOMAIN objs : objs'[i] # objs[i]}) <= 1]_vars
KindsStay == [][\A i \in DOMAIN objs : objs'[i].k = objs[i].k]_vars

View == <<objs, ref, heap, Len(h)>>
Watch == IF Len(h') >= 2 THEN PrintT("@H " \o ToJson(h')) ELSE TRUE
=============================================================================
