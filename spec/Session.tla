------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A process that calls operations with argument objects that it keeps.    *)
(* Operations complete what the caller left unset, replace what they know  *)
(* better (the typesize of an array) and switch off the metadata codec     *)
(* where it does not pay; and any of them may fail half way.  The          *)
(* specification: an operation works on copies, so that its outcome is a   *)
(* function of its arguments and its input, whatever came before.  With    *)
(* Copies = FALSE the operations work on the caller's objects; TLC then    *)
(* refutes Deterministic and ArgsKept, which shows that the histories       *)
(* printed here can tell the two apart.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Objs, Copies

Unset == 0
Kinds == {"pack", "mem", "ndpack", "append", "rewrite", "unpack", "ndunpack"}
TakesArgs == {"pack", "mem", "ndpack", "append"}
\* what the inputs say: the typesize of the array, of the container, and whether
\* compressing the metadata pays, for the two inputs that there are
Item(d)  == IF d = 1 THEN 4 ELSE 16
Stored   == 2
Pays(d)  == d = 2
Default  == 8

\* an argument object: typesize and metadata codec
Given == [o \in Objs |-> [ts |-> IF o = "o1" THEN Unset ELSE 3, codec |-> TRUE]]

VARIABLES objs, outcomes, h
vars == <<objs, outcomes, h>>

Init == objs = Given /\ outcomes = {} /\ h = <<>>

\* what the operation makes of its arguments
Complete(c, a) ==
    CASE c.k \in {"pack", "mem"} -> [ts |-> IF a.ts = Unset THEN Default ELSE a.ts,
                                     codec |-> a.codec /\ (c.k = "mem" \/ Pays(c.d))]
      [] c.k = "ndpack" -> [ts |-> Item(c.d), codec |-> a.codec /\ Pays(c.d)]
      [] c.k = "append" -> [ts |-> IF a.ts = Unset THEN Stored ELSE a.ts, codec |-> a.codec]
      [] OTHER -> a
Nothing == [ts |-> Unset, codec |-> TRUE]
Arg(c) == IF c.o = "none" THEN Nothing ELSE objs[c.o]

Calls == { c \in [k : Kinds, o : Objs \cup {"none"}, d : {1, 2}, fails : BOOLEAN] :
              c.k \notin TakesArgs => c.o = "none" }

Call(c) ==
    /\ Len(h) < Depth
    /\ h' = Append(h, c)
    /\ LET a == Complete(c, Arg(c))
       IN  /\ outcomes' = outcomes \cup {<<c, IF c.fails THEN <<"error">> ELSE <<c.k, a.ts, a.codec, c.d>>>>}
           \* a failure comes after the arguments have been completed
           /\ objs' = IF Copies \/ c.o = "none" THEN objs ELSE [objs EXCEPT ![c.o] = a]

Next == \E c \in Calls : Call(c)
Spec == Init /\ [][Next]_vars

ArgsKept == objs = Given
Deterministic == \A x \in outcomes, y \in outcomes : x[1] = y[1] => x[2] = y[2]

\* histories that end with a call that was made before, or with a second one
\* on the same object or the same input
Telling(s) ==
    LET n == Len(s)
    IN  n > 1 /\ \E i \in 1..(n - 1) : (s[i].o = s[n].o /\ s[i].o # "none") \/ (s[i].d = s[n].d /\ s[i].k # s[n].k)
Watch == IF Len(h') = Depth /\ Telling(h') THEN PrintT("@H " \o ToJson(h')) ELSE TRUE
=============================================================================
