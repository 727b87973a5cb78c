------------------------------ MODULE Hostile ------------------------------
(***************************************************************************)
(* Reading any bytes whatever.  A container of cells, in which the numbers *)
(* that say how much there is (of chunks, of reserved offsets, of          *)
(* metadata, of its reserve, of every chunk) have been distorted, so that  *)
(* a reader may land anywhere and take anything for the beginning of a     *)
(* chunk.  The reader knows nothing but these numbers and where the input  *)
(* ends.  Trusting asks for the memory a number says before it looks what  *)
(* there is; Stuck takes a chunk of no length for a chunk; Short takes     *)
(* what is there for a whole chunk.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxChunks, Trusting, Stuck, Short

Huge == 50
Lower(a, b) == IF a < b THEN a ELSE b
\* a chunk is a cell that states its length and one more, the metadata a cell, its
\* reserve another, then its digest; the table one cell per entry
Kinds == {"true", "less", "more", "zero", "huge"}
Said(k, v) == CASE k = "true" -> v [] k = "less" -> v - 1 [] k = "more" -> v + 1 [] k = "zero" -> 0 [] k = "huge" -> Huge

Distorted == [n : Kinds, cap : Kinds, comp : Kinds, max : Kinds, at : 0..MaxChunks, by : Kinds]
Plain == [n |-> "true", cap |-> "true", comp |-> "true", max |-> "true", at |-> 0, by |-> "true"]
Differ(x) == Cardinality({f \in DOMAIN Plain \ {"at", "by"} : x[f] # "true"}) + (IF x.at = 0 THEN 0 ELSE 1)

VARIABLES t,      \* the container as it was: t.n chunks, t.m metadata?, t.offs a table with t.r free entries?
          x,      \* what was done to it
          cut,    \* cells that are missing at its end
          pc, pos, steps, mem, left, out
vars == <<t, x, cut, pc, pos, steps, mem, left, out>>

True == [n : 0..MaxChunks, m : BOOLEAN, offs : BOOLEAN]
Reserve == 1
TableAt(c) == IF c.m THEN 4 ELSE 0
DataAt(c) == TableAt(c) + (IF c.offs THEN c.n + Reserve ELSE 0)
Whole(c) == DataAt(c) + 2 * c.n
Size == Whole(t) - cut
\* which chunk begins here (0: none)
ChunkAt(p) == IF p >= DataAt(t) /\ p < Whole(t) /\ (p - DataAt(t)) % 2 = 0 THEN (p - DataAt(t)) \div 2 + 1 ELSE 0

Init == /\ t \in True
        /\ x \in Distorted
        /\ x.at <= t.n /\ ((x.at = 0) <=> (x.by = "true"))
        /\ x.n = "less" => t.n > 0
        /\ ~t.m => x.comp = "true" /\ x.max = "true"
        /\ ~t.offs => x.cap \in {"true", "more"}
        /\ Differ(x) <= 2
        /\ cut \in 0..Lower(2, Whole(t))
        /\ pc = "begin" /\ pos = 0 /\ steps = 0 /\ mem = 0 /\ left = 0 /\ out = <<>>

N == Said(x.n, t.n)
Same == UNCHANGED <<t, x, cut>>
Fail == pc' = "failed" /\ UNCHANGED <<pos, mem, left, out>>
\* k cells from here: how many there are
There(k) == Lower(k, IF pos < Size THEN Size - pos ELSE 0)
Takes(k) == IF Trusting THEN k ELSE There(k)

Begin == /\ pc = "begin" /\ pc' = IF t.m THEN "meta" ELSE IF t.offs THEN "table" ELSE "chunk"
         /\ left' = N
         /\ mem' = IF Trusting THEN mem + N ELSE mem
         /\ UNCHANGED <<pos, out>>
\* its header, what is stored, a jump over the reserve, the digest
Meta == /\ pc = "meta"
        /\ LET comp == Said(x.comp, 1)
               max == Said(x.max, 2)
               after == pos + 1 + max
           IN  IF comp > max \/ pos + 1 + comp > Size \/ after + 1 > Size THEN Fail
               ELSE /\ mem' = mem + Takes(comp) /\ pos' = after + 1
                    /\ pc' = IF t.offs THEN "table" ELSE "chunk"
                    /\ UNCHANGED <<left, out>>
Table == /\ pc = "table"
         /\ LET k == N + Said(x.cap, Reserve)
            IN  IF There(k) < k THEN pc' = "failed" /\ mem' = mem + Takes(k) /\ UNCHANGED <<pos, left, out>>
                ELSE pc' = "chunk" /\ mem' = mem + k /\ pos' = pos + k /\ UNCHANGED <<left, out>>
\* what a cell that is no beginning of a chunk says is anything
Chunk == /\ pc = "chunk" /\ left > 0
         /\ IF pos >= Size THEN Fail
            ELSE LET c == ChunkAt(pos)
                     any == IF c = 0 THEN {0, 1, 2, 3, Huge} ELSE {Said(IF c = x.at THEN x.by ELSE "true", 2)}
                 IN  \E k \in any :
                        IF (k < 1 /\ ~Stuck) \/ (pos + k > Size /\ ~Short)
                        THEN pc' = "failed" /\ mem' = mem + Takes(k) /\ UNCHANGED <<pos, left, out>>
                        ELSE /\ pos' = pos + k /\ left' = left - 1 /\ pc' = pc
                             /\ mem' = mem + Takes(k)
                             /\ out' = Append(out, <<pos, k>>)
End == pc = "chunk" /\ left = 0 /\ pc' = "done" /\ UNCHANGED <<pos, mem, left, out>>

Next == (Begin \/ Meta \/ Table \/ Chunk \/ End) /\ steps' = steps + 1 /\ Same
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == <>(pc \in {"done", "failed"})
\* of the order of what there is, whatever it says
Work == steps <= Size + 4
Memory == mem <= 2 * Size + 2
\* what is delivered is there
Inside == pc = "done" => /\ pos <= Size
                         /\ \A i \in DOMAIN out : out[i][1] + out[i][2] <= Size
                         /\ \A i \in 1..(Len(out) - 1) : out[i + 1][1] = out[i][1] + out[i][2]
                         /\ Len(out) = N
Accepts == x = Plain /\ cut = 0 /\ pc \in {"done", "failed"} => pc = "done" /\ Len(out) = t.n
Cut == cut > 0 /\ x = Plain /\ pc = "done" => FALSE
Emit == pc = "begin" => PrintT("@H " \o ToJson([t |-> t, x |-> x, cut |-> cut]))
=============================================================================
