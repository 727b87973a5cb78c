----------------------------- MODULE ComposeMC -----------------------------
(***************************************************************************)
(* A container written by somebody else: any writer that follows the       *)
(* documented format.  It may not know how much data there will be, so it  *)
(* may leave the size of the chunks, that of the last one, their number or *)
(* the offsets unknown; its chunks need not have one size if none is stated; it puts   *)
(* what it likes into the slack of the metadata section.                   *)
(*                                                                         *)
(* The writer goes chunk by chunk and then fills in the table, or does     *)
(* not.  Two readers are specified: one that walks from chunk to chunk by  *)
(* the lengths that the chunks themselves state, and one that seeks by the *)
(* table.  TLC checks that both find the content of a finished container,  *)
(* that they and the layout of Format agree on where everything is, and    *)
(* that no unfinished container passes for a finished one.                 *)
(*                                                                         *)
(* With Trusting = TRUE the reader takes every stated size for true, which *)
(* is wrong as soon as it is unknown; TLC refutes WalkReads.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxN, MaxSize, Trusting

SeqNil == <<>>
SeqCat(a, b) == a \o b
SeqLen(s) == Len(s)
F == INSTANCE Format WITH Nil <- SeqNil, Cat <- SeqCat, Size <- SeqLen

Metas == {[p |-> FALSE]} \cup
         [p : {TRUE}, codec : {0, 1}, slack : {0, 3}, csum : {0, 2, 5}, junk : BOOLEAN]
\* what the header states: the size of the chunks, of the last one, the offsets
Writers == {w \in [chunk : {"stated", "larger", "unknown"}, last : {"stated", "unknown"},
                   offs : {"none", "known", "unknown"}, cap : {0, 2}, csum : {0, 1, 6}, n : 0..MaxN,
                  counted : BOOLEAN, m : Metas] :
              /\ w.offs = "none" => w.cap = 0
              \* how long would the table be?
              /\ ~w.counted => w.offs = "none"
              /\ w.chunk = "larger" => w.n = 1
              /\ w.n = 0 => w.chunk = "unknown" /\ w.last = "unknown"}

VARIABLES w,      \* the writer
          sizes,  \* of the chunks it has in mind
          ch,     \* the chunks written
          tab,    \* the table: a position, or -1
          phase
vars == <<w, sizes, ch, tab, phase>>

Uniform(s) == \A i \in 1..(Len(s) - 1) : s[i] = s[1] /\ s[Len(s)] <= s[1]
Plans(x) == {s \in [1..x.n -> 0..MaxSize] :
                /\ x.chunk # "unknown" => Uniform(s) /\ (x.n > 1 => s[x.n] > 0)}

\* one concrete header for each writer
Meta(m) == IF ~m.p THEN F!NoMeta
           ELSE [p |-> TRUE, val |-> "v", raw |-> 7, comp |-> 5 + m.codec, max |-> 5 + m.codec + m.slack,
                 csum |-> m.csum, codec |-> m.codec, level |-> m.codec]
Stated(x, s) ==
    [chunk |-> CASE x.chunk = "unknown" -> -1 [] x.chunk = "larger" -> s[1] + 5 [] OTHER -> s[1],
     last  |-> IF x.last = "unknown" THEN -1 ELSE s[x.n]]
Chunk(i, k) == [d |-> [j \in 1..k |-> 10 * i + j], k |-> 16 + k + i, raw |-> i]

\* the abstract container that is there now
Now == [offs |-> w.offs # "none", csum |-> w.csum, ts |-> 0,
        chunk |-> Stated(w, sizes).chunk, last |-> Stated(w, sizes).last,
        n |-> IF w.counted THEN w.n ELSE -1, cap |-> w.cap, m |-> Meta(w.m), ch |-> ch]

Init == /\ w \in Writers
        /\ sizes \in Plans(w)
        /\ ch = <<>>
        /\ tab = IF w.offs = "none" THEN <<>> ELSE [i \in 1..(w.n + w.cap) |-> -1]
        /\ phase = "chunks"
Put == /\ phase = "chunks" /\ Len(ch) < w.n
       /\ ch' = Append(ch, Chunk(Len(ch) + 1, sizes[Len(ch) + 1]))
       /\ UNCHANGED <<w, sizes, tab, phase>>
Finish == /\ phase = "chunks" /\ Len(ch) = w.n
          /\ tab' = IF w.offs = "known"
                    THEN [i \in DOMAIN tab |-> IF i <= w.n THEN F!ChunkPositions(Now)[i] ELSE -1]
                    ELSE tab
          /\ phase' = "done"
          /\ UNCHANGED <<w, sizes, ch>>
Next == Put \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The readers.  The medium: which chunk, if any, begins at a position      *)
At(p) == LET pos == F!ChunkPositions(Now)
             is == {i \in 1..Len(ch) : pos[i] = p}
         IN  IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
Start == F!HeaderLen + (IF w.m.p THEN F!MetaHdrLen + Meta(w.m).max + F!Digest(w.m.csum) ELSE 0)
         + F!EntryLen * Len(tab)

Failed == <<-1>>
\* n times: the chunk here, then past it and its digest
Walk ==
    LET step(a, i) ==
            LET k == At(a.pos)
                want == IF i = w.n THEN Now.last ELSE Now.chunk
            IN  IF ~a.ok \/ k = 0 \/ (Trusting /\ Len(ch[k].d) # want) THEN [a EXCEPT !.ok = FALSE]
                ELSE [ok |-> TRUE, pos |-> a.pos + ch[k].k + F!Digest(w.csum), d |-> a.d \o ch[k].d]
        RECURSIVE go(_, _)
        go(a, i) == IF (IF w.counted THEN i > w.n ELSE At(a.pos) = 0) THEN a ELSE go(step(a, i), i + 1)
        r == go([ok |-> TRUE, pos |-> Start, d |-> <<>>], 1)
    IN  IF r.ok THEN r.d ELSE Failed
Seek ==
    LET parts == [i \in 1..w.n |-> At(tab[i])]
    IN  IF \E i \in 1..w.n : parts[i] = 0 THEN Failed
        ELSE F!CatAll([i \in 1..w.n |-> ch[parts[i]].d])

Wanted == F!CatAll([i \in 1..w.n |-> Chunk(i, sizes[i]).d])
WalkReads == phase = "done" => Walk = Wanted
SeekReads == phase = "done" /\ w.offs = "known" => Seek = Wanted
SeekIsSafe == w.offs # "none" /\ w.n > 0 => Seek \in {Failed, Wanted}
\* nobody can tell if there were to be more of them when they are not counted
Unfinished == w.counted /\ Len(ch) < w.n => Walk = Failed
GeometryOf == phase = "done" /\ w.counted /\ Now.chunk # -1 /\ Now.last # -1 /\ w.n > 0
              => F!GeometryClauses(Now) = {} \/ (w.n = 1 /\ sizes[1] = 0)
Agree == phase = "done" => F!DataPos(Now) = Start

Watch == IF phase' = "done"
         THEN PrintT("@H " \o ToJson([w |-> w, sizes |-> sizes])) ELSE TRUE
=============================================================================
