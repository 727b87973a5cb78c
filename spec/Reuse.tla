------------------------------- MODULE Reuse -------------------------------
(***************************************************************************)
(* Mappings of settings, handed over again and again and changed by their  *)
(* owner in between.  A mapping is usable if it has all of the names, no   *)
(* other, and no value outside its domain; an append with one that is not  *)
(* is refused.  What is refused or accepted depends on what the mapping    *)
(* is when it is used, not on which object it is or what it was before.    *)
(*                                                                         *)
(* Remembers: the implementation takes an object it has seen, or one that  *)
(* looks alike in what it sees, for good (refuted if it does).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Objects, Depth, Remembers

Names == {"typesize", "clevel", "shuffle", "cname"}
Keys == Names \cup {"other"}
Values == {"absent", "none", "good", "bad"}   \* none: the default is taken

Usable(m) == /\ \A k \in Names : m[k] \in {"none", "good"}
             /\ m["other"] = "absent"
Initially == [k \in Keys |-> IF k = "other" THEN "absent" ELSE "good"]

VARIABLES m, good, h, wrong
vars == <<m, good, h, wrong>>
Init == m = [o \in Objects |-> Initially] /\ good = {} /\ h = <<>> /\ wrong = FALSE

LastUse == Len(h) > 0 /\ h[Len(h)].act = "use"
Set(o, k, v) == /\ m[o][k] # v
                /\ IF k = "other" THEN v \in {"absent", "good"} ELSE TRUE
                /\ m' = [m EXCEPT ![o][k] = v]
                /\ h' = Append(h, [act |-> "set", o |-> o, k |-> k, v |-> v])
                /\ UNCHANGED <<good, wrong>>
Use(o) == LET ok == Usable(m[o]) \/ (Remembers /\ o \in good)
          IN  /\ IF LastUse THEN h[Len(h)].o # o ELSE TRUE
              /\ h' = Append(h, [act |-> "use", o |-> o, k |-> "", v |-> ""])
              /\ good' = IF ok THEN good \cup {o} ELSE good
              /\ wrong' = (wrong \/ ok # Usable(m[o]))
              /\ UNCHANGED m
\* the first object is changed, the others are as they were
Next == /\ Len(h) < Depth
        /\ \/ \E k \in Keys, v \in Values : Set(1, k, v)
           \/ \E o \in Objects : Use(o)
Spec == Init /\ [][Next]_vars

Right == ~wrong
Interesting(s) == /\ Len(s) > 2 /\ s[Len(s)].act = "use"
                  /\ Cardinality({i \in DOMAIN s : s[i].act = "use"}) >= 2
Watch == IF Interesting(h') THEN PrintT("@H " \o ToJson(h')) ELSE TRUE
=============================================================================
