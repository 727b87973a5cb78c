------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* Packing and appending as sequences of writes to a storage medium, any   *)
(* of which may be the last one.                                           *)
(*                                                                         *)
(* The medium is a tape of cells.  A stored chunk takes several cells      *)
(* (how many depends on data and settings, so a chunk that is rewritten    *)
(* may grow or shrink) plus one for its digest.  An operation is turned    *)
(* into a program, the list of its reads, writes and truncations in the    *)
(* order the format prescribes, which is then executed step by step;       *)
(* Crash ends it between any two steps, Fail makes any step fail.          *)
(*                                                                         *)
(* ReadAll is the reader: it walks the tape the way every unpacking entry  *)
(* point does and either fails or returns data.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, MaxChunk, MaxCap, MaxAppends, Salts,
          WithDigest,    \* a set of booleans: containers with and without digests
          Torn           \* may a failing write have written a part?

SeqNil == <<>>
SeqCat(a, b) == a \o b
SeqLen(s) == Len(s)
F == INSTANCE Format WITH Nil <- SeqNil, Cat <- SeqCat, Size <- SeqLen

VARIABLES tape,    \* the medium
          prog,    \* steps still to be executed
          phase,   \* "idle" "pack" "append" "stopped" (crashed or failed)
          failed,  \* was the end of the last operation reported as an error?
          base,    \* content before the operation in progress
          piece,   \* what it adds
          before,  \* the tape before it
          par,     \* [cs, cap, dg]: parameters of the container
          h
vars == <<tape, prog, phase, failed, base, piece, before, par, h>>

Blank == <<"blank">>
-----------------------------------------------------------------------------
(* Encoding *)

K(d, s) == 1 + ((Len(d) + s) % 3)          \* cells a chunk takes
Body(d, s) == [i \in 1..K(d, s) |-> <<"b", d, K(d, s), i>>]
Dig(d, s)  == <<"d", d, K(d, s)>>
Hdr(n, chunk, last, cap) == <<"h", n, chunk, last, cap>>
Off(v) == <<"o", v>>

HdrPos == 1
TabPos == 2
DataPos(total) == TabPos + total

IsHdr(t) == Len(t) >= 1 /\ t[1][1] = "h"
N(t) == t[1][2]
Chunk(t) == t[1][3]
Last(t) == t[1][4]
Cap(t) == t[1][5]

\* put cells at position p, extending the tape as needed
PutAt(t, p, cells) ==
    [i \in 1..F!Greater(Len(t), p + Len(cells) - 1) |->
        IF i >= p /\ i < p + Len(cells) THEN cells[i - p + 1]
        ELSE IF i <= Len(t) THEN t[i] ELSE Blank]

-----------------------------------------------------------------------------
(* Reading *)

\* the chunk that starts at p: [ok, d, next]
ReadChunk(t, p, dg) ==
    IF p > Len(t) \/ t[p][1] # "b" THEN [ok |-> FALSE]
    ELSE LET k == t[p][3]  d == t[p][2]
             whole == /\ t[p][4] = 1
                      /\ p + k - 1 <= Len(t)
                      /\ \A i \in 1..k : t[p+i-1] = <<"b", d, k, i>>
             digest == ~dg \/ (p + k <= Len(t) /\ t[p+k] = <<"d", d, k>>)
         IN  IF whole /\ digest THEN [ok |-> TRUE, d |-> d, next |-> p + k + (IF dg THEN 1 ELSE 0)]
             ELSE [ok |-> FALSE]

RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(t, p, n, dg) ==
    IF n = 0 THEN [ok |-> TRUE, chunks |-> <<>>]
    ELSE LET c == ReadChunk(t, p, dg)
         IN  IF ~c.ok THEN [ok |-> FALSE]
             ELSE LET r == ReadFrom(t, c.next, n - 1, dg)
                  IN  IF r.ok THEN [ok |-> TRUE, chunks |-> <<[d |-> c.d, p |-> p, next |-> c.next]>> \o r.chunks]
                      ELSE [ok |-> FALSE]

Read(t, dg) ==
    IF ~IsHdr(t) \/ Len(t) < TabPos + N(t) + Cap(t) - 1 THEN [ok |-> FALSE]
    ELSE ReadFrom(t, DataPos(N(t) + Cap(t)), N(t), dg)

RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN <<>> ELSE cs[1].d \o Join(Tail(cs))

\* as an abstract container of Format
Decode(t, dg) ==
    LET r == Read(t, dg)
    IN  [offs |-> TRUE, csum |-> IF dg THEN 1 ELSE 0, ts |-> 8, chunk |-> Chunk(t),
         last |-> Last(t), n |-> N(t), cap |-> Cap(t), m |-> F!NoMeta,
         ch |-> [i \in 1..Len(r.chunks) |->
                    [d |-> r.chunks[i].d, k |-> r.chunks[i].next - r.chunks[i].p,
                     raw |-> <<r.chunks[i].p, r.chunks[i].d>>]]]

-----------------------------------------------------------------------------
(* Programs *)

W(p, cells) == [t |-> "w", p |-> p, cells |-> cells]
R(n) == [t |-> "r", n |-> n]       \* read n symbols of the input
T(p) == [t |-> "t", p |-> p]

Cut(data, size) == [i \in 1..F!CeilDiv(Len(data), size) |->
                       SubSeq(data, (i-1)*size + 1, F!Lesser(i*size, Len(data)))]

\* writes for a list of chunks from position p, and the positions themselves
RECURSIVE Chunks(_, _, _, _)
Chunks(ds, p, s, dg) ==
    IF ds = <<>> THEN [steps |-> <<>>, pos |-> <<>>, end |-> p]
    ELSE LET b == Body(ds[1], s)
             q == p + Len(b)
             r == Chunks(Tail(ds), IF dg THEN q + 1 ELSE q, s, dg)
         IN  [steps |-> <<R(Len(ds[1])), W(p, b)>> \o (IF dg THEN <<W(q, <<Dig(ds[1], s)>>)>> ELSE <<>>) \o r.steps,
              pos |-> <<p>> \o r.pos, end |-> r.end]

PackProgram(data, cs, cap, s, dg) ==
    LET geo == F!Chunking(Len(data), cs)
        ds  == IF data = <<>> THEN << <<>> >> ELSE Cut(data, geo.chunk)
        c   == Chunks(ds, DataPos(geo.n + cap), s, dg)
    IN  <<W(HdrPos, <<Hdr(geo.n, geo.chunk, geo.last, cap)>>),
          W(TabPos, [i \in 1..(geo.n + cap) |-> Off(-1)])>>
        \o c.steps
        \o <<W(TabPos, [i \in 1..geo.n |-> Off(c.pos[i])])>>

\* the chunk to be filled up is found through the offsets table
AppendProgram(t, data, s, dg) ==
    LET p     == t[TabPos + N(t) - 1][2]
        old   == ReadChunk(t, p, dg)
        room  == Chunk(t) - Len(old.d)
        fill  == F!Lesser(room, Len(data))
        rest  == SubSeq(data, fill + 1, Len(data))
        ds    == IF rest = <<>> THEN <<>> ELSE Cut(rest, Chunk(t))
        c     == Chunks(<< old.d \o SubSeq(data, 1, fill)>> \o ds, p, s, dg)
        n     == N(t) + Len(ds)
        lastd == IF ds = <<>> THEN Len(old.d) + fill ELSE Len(ds[Len(ds)])
    IN  <<R(0)>> \o [c.steps EXCEPT ![1] = R(fill)] \o <<T(c.end), W(HdrPos, <<Hdr(n, Chunk(t), lastd, Cap(t) - Len(ds))>>)>>
        \o (IF ds = <<>> THEN <<>>
            ELSE <<W(TabPos, [i \in 1..n |-> IF i <= N(t) THEN t[TabPos + i - 1]
                                              ELSE Off(c.pos[i - N(t) + 1])])>>)

-----------------------------------------------------------------------------
Symbols(k, n) == [i \in 1..n |-> <<k, i>>]

Init == /\ tape = <<>> /\ prog = <<>> /\ phase = "new" /\ failed = FALSE
        /\ base = <<>> /\ piece = <<>> /\ before = <<>> /\ h = <<>>
        /\ par = [dg |-> TRUE]

StartPack == \E n \in 0..MaxLen, cs \in 1..MaxChunk, cap \in 0..MaxCap, s \in Salts, dg \in WithDigest :
    /\ phase = "new"
    /\ prog' = PackProgram(Symbols(0, n), cs, cap, s, dg)
    /\ phase' = "pack" /\ piece' = Symbols(0, n) /\ before' = <<>>
    /\ par' = [dg |-> dg]
    /\ h' = <<[op |-> "pack", len |-> n, cs |-> cs, cap |-> cap, salt |-> s, dg |-> dg]>>
    /\ UNCHANGED <<tape, failed, base>>

StartAppend == \E n \in 0..MaxLen, s \in Salts :
    /\ phase = "idle" /\ Len(h) <= MaxAppends
    /\ F!CanAppend(Decode(tape, par.dg), n)
    /\ prog' = AppendProgram(tape, Symbols(Len(h), n), s, par.dg)
    /\ phase' = "append" /\ piece' = Symbols(Len(h), n) /\ before' = tape
    /\ h' = Append(h, [op |-> "append", len |-> n, salt |-> s])
    /\ UNCHANGED <<tape, failed, base, par>>

Busy == phase \in {"pack", "append"}

Exec(st, t) == CASE st.t = "w" -> PutAt(t, st.p, st.cells)
                 [] st.t = "t" -> SubSeq(t, 1, st.p - 1)
                 [] OTHER -> t

Step == /\ Busy /\ prog # <<>>
        /\ tape' = Exec(prog[1], tape)
        /\ prog' = Tail(prog)
        /\ UNCHANGED <<phase, failed, base, piece, before, par, h>>

Done == /\ Busy /\ prog = <<>>
        /\ phase' = "idle" /\ base' = base \o piece /\ piece' = <<>>
        /\ UNCHANGED <<tape, prog, failed, before, par, h>>

Stopped(how, t) ==
    /\ phase' = "stopped" /\ failed' = TRUE /\ tape' = t
    /\ h' = Append(h, [op |-> how, at |-> Len(prog)])
    /\ UNCHANGED <<prog, base, piece, before, par>>

Crash == Busy /\ prog # <<>> /\ Stopped("crash", tape)
\* a step fails, leaving nothing or (Torn) a part of what it was to write
Fail == /\ Busy /\ prog # <<>>
        /\ \/ Stopped("fail", tape)
           \/ /\ Torn /\ prog[1].t = "w"
              /\ \E j \in 1..(Len(prog[1].cells) - 1) :
                    Stopped("fail", PutAt(tape, prog[1].p, SubSeq(prog[1].cells, 1, j)))

Next == StartPack \/ StartAppend \/ Step \/ Done \/ Crash \/ Fail
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)

Wants == base \o piece

\* a completed operation left what Format asks for
CompleteRight ==
    phase = "idle" =>
        LET c == Decode(tape, par.dg)
        IN  /\ Read(tape, par.dg).ok
            /\ F!Content(c) = base
            /\ F!GeometryClauses(c) = {}
            /\ \A i \in 1..N(tape) : tape[TabPos + i - 1] = Off(Read(tape, par.dg).chunks[i].p)
            /\ \A i \in 1..Cap(tape) : tape[TabPos + N(tape) + i - 1] = Off(-1)
            /\ Len(tape) = Read(tape, par.dg).chunks[N(tape)].next - 1

\* C10: the table is filled in only when all chunks are there
TableLast ==
    phase = "pack" \/ (phase = "stopped" /\ before = <<>>) =>
        \A i \in 2..Len(tape) : tape[i][1] = "o" /\ tape[i][2] # -1 =>
            LET r == Read(tape, par.dg) IN r.ok /\ Join(r.chunks) = piece

\* C10: what an interrupted pack left is not read as something else
PackReadable ==
    phase = "stopped" /\ before = <<>> =>
        LET r == Read(tape, par.dg) IN r.ok => Join(r.chunks) = piece

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* C11
AppendSafe ==
    phase \in {"append", "stopped"} /\ before # <<>> =>
        LET total == N(before) + Cap(before)
            lastp == before[TabPos + N(before) - 1][2]
        IN  /\ \A i \in DataPos(total)..(lastp - 1) : i <= Len(tape) /\ tape[i] = before[i]
            /\ \A i \in 1..(N(before) - 1) : tape[TabPos + i - 1] = before[TabPos + i - 1]
            /\ LET r == Read(tape, par.dg)
               IN  r.ok => /\ IsPrefix(base, Join(r.chunks))
                           /\ IsPrefix(Join(r.chunks), Wants)

\* C22: symbols read but not yet written are those of one chunk at most, and
\* what is still to be read is what is still to be written, less those
Sum(f(_), s) == F!FoldLeft(LAMBDA a, x : a + f(x), 0, s)
ToRead  == Sum(LAMBDA x : IF x.t = "r" THEN x.n ELSE 0, prog)
ToWrite == Sum(LAMBDA x : IF x.t = "w" /\ x.cells # <<>> /\ x.cells[1][1] = "b"
                          THEN Len(x.cells[1][2]) ELSE 0, prog)
Unit == IF phase = "append" THEN Chunk(before) ELSE Chunk(tape)
Streaming ==
    Busy /\ IsHdr(tape) =>
        /\ ToWrite - ToRead \in 0..Unit
        /\ \A i \in 1..Len(prog) : prog[i].t = "r" => prog[i].n <= Unit

\* a history ends with "crash at"/"fail at" so many steps before the end
Emit == phase' # "stopped" \/ PrintT("@H " \o ToJson([h EXCEPT ![Len(h)] = h'[Len(h)]]))
=============================================================================
