-------------------------------- MODULE Memo --------------------------------
(***************************************************************************)
(* Operations of a process that may remember.  An input is a record of     *)
(* features, and an outcome depends on all of them: it is the input.  The  *)
(* implementation remembers outcomes by the features in Sees only (and     *)
(* only the last Room of them, and only what came at least After times).   *)
(* It is right for all histories exactly if it sees all features.          *)
(*                                                                         *)
(* Twins are inputs that differ in one feature.  TLC checks that any       *)
(* memory that does not see everything goes wrong in a history printed     *)
(* here: one input often enough, then a twin (Told).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NF, Depth, Rooms, Afters

F == 1..NF
Inputs == [F -> {0, 1}]
Twins(x, y) == Cardinality({f \in F : x[f] # y[f]}) = 1
Base == [f \in F |-> 0]

VARIABLES sees, room, after,  \* what sort of memory it is
          mem,                \* sequence of [k: what was seen, o: outcome]
          times,              \* what was seen -> how often
          h, wrong
vars == <<sees, room, after, mem, times, h, wrong>>

Part(x) == {<<f, x[f]>> : f \in sees}
Init == /\ sees \in SUBSET F /\ room \in Rooms /\ after \in Afters
        /\ mem = <<>> /\ times = <<>> /\ h = <<>> /\ wrong = FALSE

Count(k) == IF k \in DOMAIN times THEN times[k] ELSE 0
Call(x) ==
    LET k == Part(x)
        at == {i \in DOMAIN mem : mem[i].k = k}
        o == IF at = {} THEN x ELSE mem[CHOOSE i \in at : TRUE].o
    IN  /\ Len(h) < Depth
        /\ h' = Append(h, x)
        /\ wrong' = (wrong \/ o # x)
        /\ times' = [q \in DOMAIN times \cup {k} |-> IF q = k THEN Count(k) + 1 ELSE times[q]]
        /\ mem' = IF at # {} \/ Count(k) + 1 < after THEN mem
                  ELSE LET m == Append(mem, [k |-> k, o |-> o])
                       IN  IF Len(m) > room THEN Tail(m) ELSE m
        /\ UNCHANGED <<sees, room, after>>
\* the base and its twins, the base in between
Next == \E x \in {y \in Inputs : y = Base \/ Twins(y, Base)} : Call(x)
Spec == Init /\ [][Next]_vars

Right == sees = F => ~wrong
\* the histories imposed on the real code: base, base, twin
Tour(s) == Len(s) = 3 /\ s[1] = Base /\ s[2] = Base /\ s[3] # Base
Told == (Tour(h) /\ h[3] \in Inputs /\ \E f \in F \ sees : h[3][f] = 1) => wrong
=============================================================================
