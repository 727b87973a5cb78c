------------------------------- MODULE Routes -------------------------------
(***************************************************************************)
(* The same requests made by two routes: every request can be made by      *)
(* several entry points, that get their input and put their output in      *)
(* different places (a file name, an open file, bytes, chunks in memory),   *)
(* and the two routes choose them independently.  What is asked for is a   *)
(* function of the request, never of the entry point: two runs side by     *)
(* side, with the same requests, see the same outcomes (Alike).            *)
(* With Sloppy = TRUE, entry points that know the size of their input only *)
(* by asking fail on empty input; TLC refutes Alike.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Sloppy

CS == 2
Where == {"name", "file", "bytes", "memory"}
\* whose size has to be asked for
Asked == {"name"}

None == [is |-> "none"]
Container(n, cap, m) == [is |-> "good", n |-> n, cap |-> cap, m |-> m]

Chunks(n) == IF n = 0 THEN 1 ELSE (n + CS - 1) \div CS

Packs   == [op : {"pack"}, n : {0, 1, 2, 5}, cap : {0, 1, 9}, m : {"no", "fits", "not"}, ok : BOOLEAN]
Appends == [op : {"append"}, n : {0, 1, 4}, ok : BOOLEAN]
Changes == [op : {"damage", "trunc", "header"}]
Reads   == [op : {"unpack"}]

\* the container after a request, and what the caller sees
Answer(c, r, w) ==
    CASE r.op = "pack" ->
           IF ~r.ok \/ r.m = "not" \/ (Sloppy /\ w \in Asked /\ r.n = 0) THEN [c |-> None, out |-> "refused"]
           ELSE [c |-> Container(r.n, r.cap, r.m), out |-> <<"container", r.n, r.cap, r.m>>]
      [] r.op = "append" ->
           IF c.is # "good" \/ ~r.ok \/ (c.n = 0 /\ r.n > 0) \/ (Sloppy /\ w \in Asked /\ r.n = 0)
              \/ Chunks(c.n + r.n) - Chunks(c.n) > c.cap
           THEN [c |-> c, out |-> "refused"]
           ELSE LET d == Container(c.n + r.n, c.cap - (Chunks(c.n + r.n) - Chunks(c.n)), c.m)
                IN  [c |-> d, out |-> <<"container", d.n, d.cap, d.m>>]
      [] r.op \in {"damage", "trunc", "header"} -> [c |-> [is |-> r.op], out |-> "changed"]
      [] r.op = "unpack" ->
           IF c.is = "good" THEN [c |-> c, out |-> <<"data", c.n, c.m>>] ELSE [c |-> c, out |-> "refused"]

VARIABLES c1, c2, out1, out2, h
vars == <<c1, c2, out1, out2, h>>

Init == c1 = None /\ c2 = None /\ out1 = "" /\ out2 = "" /\ h = <<>>

\* requests that make sense next
Next1(r) ==
    IF h = <<>> THEN r.op = "pack"
    ELSE CASE r.op = "pack" -> FALSE
           \* nothing changes what is no longer a container
           [] r.op \in {"damage", "trunc", "header"} -> c1.is = "good" /\ c2.is = "good"
           [] r.op = "append" -> c1.is # "none" /\ h[Len(h)].op # "unpack"
           [] OTHER -> c1.is # "none" /\ h[Len(h)].op # "unpack"

Do(r) ==
    /\ Len(h) < Depth /\ Next1(r)
    /\ \E w1 \in Where, w2 \in Where :
         LET a == Answer(c1, r, w1)
             b == Answer(c2, r, w2)
         IN  /\ c1' = a.c /\ c2' = b.c /\ out1' = a.out /\ out2' = b.out
    /\ h' = Append(h, r)

Next == \E r \in Packs \cup Appends \cup Changes \cup Reads : Do(r)
Spec == Init /\ [][Next]_vars

Alike == out1 = out2 /\ c1 = c2

\* histories that end with a reading, or with a refusal to pack
Watch == IF h' # h /\ (h'[Len(h')].op = "unpack" \/ (Len(h') = 1 /\ c1'.is = "none"))
         THEN PrintT("@H " \o ToJson(h')) ELSE TRUE
=============================================================================
