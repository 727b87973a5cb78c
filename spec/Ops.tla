-------------------------------- MODULE Ops --------------------------------
(***************************************************************************)
(* The life of one container at the level of whole operations: it is       *)
(* packed, appended to, and has its metadata replaced, any number of       *)
(* times, with operations being refused in between.  The effect of each    *)
(* operation is given operationally here (which chunk is filled up, how    *)
(* the appended piece is cut, which slots are used, what the metadata      *)
(* section holds afterwards); the clauses of Format are then what TLC      *)
(* checks of every transition, and are what Trace checks of the            *)
(* implementation.                                                         *)
(*                                                                         *)
(* Content is a sequence of symbols; every appended piece has symbols of   *)
(* its own, so order and provenance are visible.                           *)
(*                                                                         *)
(* h records the operations.  It is hidden by the view, so that every      *)
(* transition of the graph of abstract containers is explored once, each   *)
(* with a shortest history, and Emit prints that history as an obligation  *)
(* for the replay on the implementation.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,      \* longest piece
          MaxChunk,    \* largest requested chunk size
          MaxCap,      \* largest requested reserve
          MaxTotal,    \* longest content
          MaxHist,     \* longest history
          Metas,       \* metadata requests
          WithRewrite  \* explore metadata replacement?

SeqNil == <<>>
SeqCat(a, b) == a \o b
SeqLen(s) == Len(s)
F == INSTANCE Format WITH Nil <- SeqNil, Cat <- SeqCat, Size <- SeqLen

Symbols(k, n) == [i \in 1..n |-> k]

\* what Blosc makes of a chunk: all that matters is that equal data give
\* equal bytes
Stored(d) == [d |-> d, k |-> Len(d) + 16, raw |-> d]

-----------------------------------------------------------------------------
(* Metadata values: v0 serializes to 2 bytes, ... *)
Values  == {"a", "b", "c"}
RawLen(v)  == CASE v = "a" -> 2 [] v = "b" -> 8 [] v = "c" -> 40
ZLen(v, level) == CASE v = "a" -> 10 [] v = "b" -> IF level = 0 THEN 19 ELSE 8
                    [] v = "c" -> IF level = 0 THEN 51 ELSE 12

MReq(v, codec, level, csum, max) ==
    [p |-> TRUE, val |-> v, raw |-> RawLen(v), z |-> ZLen(v, level),
     codec |-> codec, level |-> level, csum |-> csum, max |-> max]

\* the section the implementation is to write
MStore(q) ==
    IF ~q.p THEN F!NoMeta
    ELSE LET kept == q.codec # 0 /\ ~(q.raw < q.z)
         IN  [p |-> TRUE, val |-> q.val, raw |-> q.raw,
              comp |-> IF kept THEN q.z ELSE q.raw, max |-> q.max, csum |-> q.csum,
              codec |-> IF kept THEN q.codec ELSE 0,
              level |-> IF kept THEN q.level ELSE 0]

\* none, or a set of requests that do and do not fit
MetaNone == {[p |-> FALSE]}
MetaSome == {MReq("a", 1, 6, 1, 20), MReq("b", 1, 6, 2, 8), MReq("c", 1, 6, 3, 12),
             MReq("c", 0, 6, 0, 40), MReq("c", 1, 0, 1, 40), MReq("a", 1, 6, 1, 1)}
Rewrites == {[val |-> v, codec |-> co, level |-> l, csum |-> k, fmt |-> f] :
               v \in Values, co \in {-1, 0, 1, 99}, l \in {-1, 6, 99},
               k \in {-1, 1, 2, 3, 99}, f \in BOOLEAN}
RewritesSmall == {r \in Rewrites :
    \/ r.fmt /\ r.codec \in {-1,0,1} /\ r.level \in {-1,6} /\ r.csum \in {-1,2}
    \/ Cardinality({x \in {"f","c","l","k"} :
          CASE x = "f" -> ~r.fmt [] x = "c" -> r.codec = 99
            [] x = "l" -> r.level = 99 [] x = "k" -> r.csum \in {3, 99}}) = 1
       /\ r.val = "a" /\ (r.codec \in {1,99}) /\ r.level \in {6,99} /\ r.csum \in {-1,3,99}}

-----------------------------------------------------------------------------
VARIABLES c,     \* the container, or absent
          g,     \* ghost: the content it must have
          gm,    \* ghost: the metadata it must have
          total, \* ghost: slots at packing time
          h,     \* history
          last   \* what the last step did: [op, ok, pre, arg, ret]

vars == <<c, g, gm, total, h, last>>
Absent == [none |-> TRUE]
Present == "none" \notin DOMAIN c

Erase(x) == IF "none" \in DOMAIN x THEN x
            ELSE [x EXCEPT !.ch = [i \in 1..Len(x.ch) |-> Len(x.ch[i].d)]]
View == <<Erase(c), gm>>

Init == /\ c = Absent /\ g = <<>> /\ gm = "" /\ total = 0 /\ h = <<>>
        /\ last = [op |-> "init"]

Cut(data, size) ==     \* in pieces of the given size
    [i \in 1..F!CeilDiv(Len(data), size) |->
        Stored(SubSeq(data, (i-1)*size + 1, F!Lesser(i*size, Len(data))))]

Pack(n, cs, offs, cap, m) ==
    /\ ~Present
    /\ Len(h) < MaxHist
    /\ LET data == Symbols(Len(h), n)
           geo  == F!Chunking(n, cs)
           ok   == ~m.p \/ MStore(m).comp <= m.max
           new  == [offs |-> offs, csum |-> 1, ts |-> 8,
                    chunk |-> geo.chunk, last |-> geo.last, n |-> geo.n,
                    cap |-> IF offs THEN cap ELSE 0, m |-> MStore(m),
                    ch |-> IF n = 0 THEN <<Stored(<<>>)>> ELSE Cut(data, geo.chunk)]
       IN /\ h' = Append(h, [op |-> "pack", len |-> n, cs |-> cs, offs |-> offs, cap |-> cap, m |-> m])
          /\ c' = IF ok THEN new ELSE c
          /\ g' = IF ok THEN data ELSE g
          /\ gm' = IF ok /\ m.p THEN m.val ELSE ""
          /\ total' = IF ok THEN new.n + new.cap ELSE 0
          /\ last' = [op |-> "pack", ok |-> ok, data |-> data,
                      req |-> [cs |-> cs, offs |-> offs, cap |-> cap, csum |-> 1, ts |-> 8, m |-> m]]

\* the implementation's way of appending
AppendStep(n) ==
    /\ Present
    /\ Len(h) < MaxHist
    /\ Len(g) + n <= MaxTotal
    /\ LET piece == Symbols(Len(h), n)
           lastd == c.ch[Len(c.ch)].d
           diff  == c.chunk - Len(lastd)
           fill  == F!Lesser(diff, n)
           rest  == SubSeq(piece, fill + 1, n)
           k     == IF rest = <<>> THEN 0
                    ELSE IF c.chunk = 0 THEN 999 ELSE F!CeilDiv(Len(rest), c.chunk)
           ok    == c.offs /\ k <= c.cap
           filled == Stored(lastd \o SubSeq(piece, 1, fill))
           more  == IF k = 0 THEN <<>> ELSE Cut(rest, c.chunk)
           ch    == F!KeptChunks(c) \o <<filled>> \o more
       IN /\ h' = Append(h, [op |-> "append", len |-> n])
          /\ c' = IF ok THEN [c EXCEPT !.ch = ch, !.n = c.n + k, !.cap = c.cap - k,
                                       !.last = Len(ch[Len(ch)].d)]
                  ELSE c
          /\ g' = IF ok THEN g \o piece ELSE g
          /\ last' = [op |-> "append", ok |-> ok, pre |-> c, piece |-> piece, ret |-> k]
    /\ UNCHANGED <<gm, total>>

RewriteStep(q) ==
    /\ Present
    /\ Len(h) < MaxHist
    /\ LET known == /\ c.m.p /\ q.fmt /\ q.codec # 99 /\ q.csum # 99 /\ q.level # 99
           lv    == IF q.level = -1 THEN c.m.level ELSE q.level
           full  == [val |-> q.val, codec |-> q.codec, level |-> q.level, csum |-> q.csum,
                     fmt |-> q.fmt, raw |-> RawLen(q.val), z |-> ZLen(q.val, lv)]
           r     == F!RewriteRequest(c.m, full)
           ok    == /\ known /\ q.val # c.m.val
                    /\ F!Digest(r.csum) = F!Digest(c.m.csum)
                    /\ MStore(r).comp <= c.m.max
       IN /\ h' = Append(h, [op |-> "rewrite", q |-> q])
          /\ c' = IF ok THEN [c EXCEPT !.m = MStore(r)] ELSE c
          /\ gm' = IF ok THEN q.val ELSE gm
          /\ last' = [op |-> "rewrite", ok |-> ok, pre |-> c, q |-> full, known |-> known]
    /\ UNCHANGED <<g, total>>

Next == \/ \E n \in 0..MaxLen, cs \in 1..MaxChunk, offs \in BOOLEAN, cap \in 0..MaxCap, m \in Metas :
              (offs \/ cap = MaxCap) /\ Pack(n, cs, offs, cap, m)
        \/ \E n \in 0..MaxLen : AppendStep(n)
        \/ WithRewrite /\ \E q \in RewritesSmall : RewriteStep(q)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)

\* C01, C05, C07: what is stored is what was given
ContentRight == Present => F!Content(c) = g
MetaRight    == Present => IF c.m.p THEN c.m.val = gm ELSE gm = ""
\* C02
Geometry     == Present => F!GeometryClauses(c) = {}
\* C23
SlotsConstant == Present => c.n + c.cap = total
\* C04
MetaRoom == Present /\ c.m.p => /\ c.m.comp <= c.m.max
                                /\ c.m.codec = 0 => c.m.level = 0 /\ c.m.comp = c.m.raw
\* every accepted step satisfies the clauses, and exactly the right ones are
\* accepted; refused steps change nothing (C06)
StepRight ==
    CASE last.op = "pack" ->
           /\ last.ok <=> (~last.req.m.p \/ F!MetaFits(last.req.m))
           /\ last.ok => F!PackClauses(last.req, last.data, c) = {}
                         /\ F!MetaClauses(last.req.m, c.m) = {}
      [] last.op = "append" ->
           /\ last.ok <=> F!CanAppend(last.pre, Len(last.piece))
           /\ IF last.ok THEN F!AppendClauses(last.pre, last.piece, last.ret, c) = {}
              ELSE c = last.pre
      [] last.op = "rewrite" ->
           /\ last.ok <=> F!CanRewrite(last.pre, last.q)
           /\ IF last.ok
              THEN /\ F!MetaClauses(F!RewriteRequest(last.pre.m, last.q), c.m) = {}
                   /\ [c EXCEPT !.m = last.pre.m] = last.pre
                   /\ c.m.max = last.pre.m.max
                   \* the data does not move
                   /\ F!DataPos(c) = F!DataPos(last.pre)
              ELSE c = last.pre
      [] OTHER -> TRUE

\* evaluated for every transition: checks it (the view hides `last`, so an
\* invariant would miss transitions that lead to known states) and hands out
\* the history that ends with it
Emit == /\ Assert(StepRight', <<"StepRight", last'>>)
        /\ Assert((ContentRight /\ MetaRight /\ Geometry /\ SlotsConstant /\ MetaRoom)', "state")
        /\ PrintT("@H " \o ToJson(h'))
=============================================================================
