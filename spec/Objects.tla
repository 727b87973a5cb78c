------------------------------ MODULE Objects -------------------------------
(***************************************************************************)
(* The objects that hold arguments and header fields: mappings from a      *)
(* fixed sequence of names to values, which can be set, but neither be     *)
(* added nor removed.  An object is [k: kind, v: sequence of values]; an   *)
(* action is a record                                                      *)
(*   new(k, g)    construct, g: position -> value, the others by default   *)
(*   set(i, g)    give new values to fields of the i-th object             *)
(*   read(i, j)   ask for one field, known or (j = 0) not                  *)
(*   lend(i, j)   setdefault: nothing changes, as the field has a value    *)
(*   wrong(i)     set a field that there is not                            *)
(*   del(i)       anything that would remove fields                        *)
(*   copy(i)      another object of the same kind and values               *)
(*   move(i, j)   give all the values of the i-th to the j-th              *)
(* in any of the ways that Python has for it.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Given(v, g) == [p \in DOMAIN v |-> IF p \in DOMAIN g THEN g[p] ELSE v[p]]

\* names(k), defaults(k): of a kind
Allowed(names(_), objs, a) ==
    CASE a.act \in {"wrong", "del"} -> FALSE
      [] a.act = "read" -> a.j # 0
      [] a.act = "lend" -> a.j # 0
      [] a.act = "move" -> names(objs[a.i].k) = names(objs[a.j].k)
      [] OTHER -> TRUE

After(names(_), defaults(_), objs, a) ==
    IF ~Allowed(names, objs, a) THEN objs
    ELSE CASE a.act = "new"  -> Append(objs, [k |-> a.k, v |-> Given(defaults(a.k), a.g)])
           [] a.act = "set"  -> [objs EXCEPT ![a.i].v = Given(@, a.g)]
           [] a.act = "copy" -> Append(objs, objs[a.i])
           [] a.act = "move" -> [objs EXCEPT ![a.j].v = objs[a.i].v]
           [] OTHER -> objs

Equal(names(_), x, y) == names(x.k) = names(y.k) /\ x.v = y.v
=============================================================================
