------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* The bloscpack container and the effect of every operation on it, as     *)
(* pure operators over an abstract container.  These operators are used    *)
(* three times: the state machines (Ops, Store, ...) are built from them,  *)
(* TLC checks invariants that refer to them, and Trace evaluates the very  *)
(* same operators on executions recorded from the implementation.          *)
(*                                                                         *)
(* An abstract container is a record                                       *)
(*   offs, csum, ts, chunk, last, n, cap   the header's statement          *)
(*   m    [p: is there metadata?, val, raw, comp, max, csum, codec, level] *)
(*   ch   sequence of stored chunks [d: what it decompresses to,           *)
(*        k: stored length, raw: identity of the stored bytes and digest]  *)
(*                                                                         *)
(* Content is any monoid: sequences of symbols in the models, a            *)
(* fingerprint that is a homomorphism of concatenation in the traces       *)
(* (so "returns the original followed by the piece" is decided for inputs  *)
(* of any size).                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bytes

CONSTANTS Nil,          \* the empty content
          Cat(_, _),    \* concatenation
          Size(_)       \* length in bytes

\* a clause of a property: the set of its name if it does not hold
Chk(name, holds) == IF holds THEN {} ELSE {name}

MaxBuffer   == 2147483631       \* largest buffer Blosc takes
HeaderLen   == 32
MetaHdrLen  == 32
EntryLen    == 8
DigestSizes == <<0, 4, 4, 16, 20, 28, 32, 48, 64>>
ChecksumNumbers == 0..8         \* None adler32 crc32 md5 sha1 sha224 sha256 sha384 sha512
CodecNumbers    == 0..1         \* None zlib
Digest(k)   == DigestSizes[k + 1]
CeilDiv(a, b) == (a + b - 1) \div b

CatAll(s) == FoldLeft(Cat, Nil, s)

ChunkData(c) == [i \in 1..Len(c.ch) |-> c.ch[i].d]
Content(c)   == CatAll(ChunkData(c))
NoMeta       == [p |-> FALSE]

-----------------------------------------------------------------------------
(* Packing: geometry and capacity                                          *)

Chunking(len, cs) ==
    IF len = 0 THEN [n |-> 1, chunk |-> 0, last |-> 0]
    ELSE LET c == Lesser(cs, len)
             r == len % c
         IN  [n |-> CeilDiv(len, c), chunk |-> c, last |-> IF r = 0 THEN c ELSE r]

\* the number of reserved slots, with 64 bit numbers
Capacity64(offs, n, req) ==
    IF ~offs THEN Zero64
    ELSE IF AddOverflows(n, req) THEN Sub64(Max64, n) ELSE req

Capacity(offs, req) == IF offs THEN req ELSE 0

\* what must hold of the geometry of any container, however it came about
GeometryClauses(c) ==
    Chk("C02.nchunks", Len(c.ch) = c.n) \cup
    Chk("C02.full_chunks", \A i \in 1..(Len(c.ch)-1) : Size(c.ch[i].d) = c.chunk) \cup
    Chk("C02.last_chunk", Len(c.ch) > 0 => Size(c.ch[Len(c.ch)].d) = c.last) \cup
    Chk("C02.last_range", \/ c.last \in 1..c.chunk
                          \/ c.n = 1 /\ c.chunk = 0 /\ c.last = 0) \cup
    Chk("C02.no_offsets_no_capacity", c.offs \/ c.cap = 0)

\* req: what was asked for; c: what was stored
PackHeaderClauses(req, len, c) ==
    LET g == Chunking(len, req.cs)
    IN  Chk("C02.chunk_size", c.chunk = g.chunk) \cup
        Chk("C02.nchunks_expected", c.n = g.n) \cup
        Chk("C02.last_chunk_expected", c.last = g.last) \cup
        Chk("C02.checksum", c.csum = req.csum) \cup
        Chk("C02.typesize", c.ts = req.ts) \cup
        Chk("C02.offsets_flag", c.offs = req.offs) \cup
        Chk("C02.metadata_flag", c.m.p = req.m.p) \cup
        Chk("C02.capacity", c.cap = Capacity(req.offs, req.cap))

PackClauses(req, data, c) ==
    PackHeaderClauses(req, Size(data), c) \cup GeometryClauses(c) \cup
    Chk("C01.stored_content", Content(c) = data)

-----------------------------------------------------------------------------
(* Layout: where everything is                                             *)

MetaSectionLen(m) == IF m.p THEN MetaHdrLen + m.max + Digest(m.csum) ELSE 0
OffsetsPos(c) == HeaderLen + MetaSectionLen(c.m)
TableLen(c)   == IF c.offs THEN EntryLen * (c.n + c.cap) ELSE 0
DataPos(c)    == OffsetsPos(c) + TableLen(c)
StoredLen(c, i) == c.ch[i].k + Digest(c.csum)

\* 0-based positions of the chunks, followed by that of the end
Positions(c) ==
    FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + x.k + Digest(c.csum)),
             <<DataPos(c)>>, c.ch)
ChunkPositions(c) == SubSeq(Positions(c), 1, Len(c.ch))
TotalLen(c) == Positions(c)[Len(c.ch) + 1]

-----------------------------------------------------------------------------
(* Metadata section                                                        *)

\* req.m: [p, val, raw: serialized length, z: its length when compressed as
\* requested, codec, level, csum, max]
MetaFits(q) == LET kept == q.codec # 0 /\ q.z <= q.raw
               IN  (IF kept THEN q.z ELSE q.raw) <= q.max

MetaClauses(q, m) ==
    IF ~q.p THEN Chk("C04.absent", ~m.p)
    ELSE IF ~m.p THEN {"C04.present"}
    ELSE LET kept == /\ q.codec # 0
                     /\ \/ q.z < q.raw
                        \/ q.z = q.raw /\ m.codec # 0     \* equal: either way
         IN  Chk("C04.value", m.val = q.val) \cup
             Chk("C04.raw_size", m.raw = q.raw) \cup
             Chk("C04.stored_size", m.comp = (IF kept THEN q.z ELSE q.raw)) \cup
             Chk("C04.codec", m.codec = (IF kept THEN q.codec ELSE 0)) \cup
             Chk("C04.level", m.level = (IF kept THEN q.level ELSE 0)) \cup
             Chk("C04.reserved_size", m.max = q.max) \cup
             Chk("C04.checksum", m.csum = q.csum) \cup
             Chk("C04.fits", m.comp <= m.max)

\* replacing the metadata m by what q asks for.  q.csum = -1 / codec = -1 /
\* level = -1: keep the recorded setting.
RewriteRequest(m, q) ==
    [p |-> TRUE, val |-> q.val, raw |-> q.raw, z |-> q.z,
     codec |-> IF q.codec = -1 THEN m.codec ELSE q.codec,
     level |-> IF q.level = -1 THEN m.level ELSE q.level,
     csum  |-> IF q.csum = -1 THEN m.csum ELSE q.csum,
     max   |-> m.max]
CanRewrite(c, q) ==
    /\ c.m.p
    /\ q.fmt                                  \* a known serialization format
    /\ q.val # c.m.val
    /\ q.codec \in CodecNumbers \cup {-1}
    /\ q.csum \in ChecksumNumbers \cup {-1}
    /\ q.level \in -1..9
    /\ Digest(RewriteRequest(c.m, q).csum) = Digest(c.m.csum)
    /\ MetaFits(RewriteRequest(c.m, q))

-----------------------------------------------------------------------------
(* Appending                                                               *)

LastSize(c) == Size(c.ch[Len(c.ch)].d)
Room(c) == c.chunk - LastSize(c)
NewChunks(c, len) == IF len <= Room(c) THEN 0 ELSE CeilDiv(len - Room(c), c.chunk)
CanAppend(c, len) ==
    /\ c.offs
    /\ \/ len <= Room(c)
       \/ c.chunk > 0 /\ NewChunks(c, len) <= c.cap

KeptChunks(c) == SubSeq(c.ch, 1, Len(c.ch) - 1)      \* all but the last

SlotClauses(c, k, d) ==
    Chk("C23.slots_used", d.n = c.n + k) \cup
    Chk("C23.slots_left", d.cap = c.cap - k) \cup
    Chk("C23.total", d.n + d.cap = c.n + c.cap)
AppendClauses(c, piece, ret, d) ==
    LET k == NewChunks(c, Size(piece))
    IN  Chk("C05.content", Content(d) = Cat(Content(c), piece)) \cup
        Chk("C05.metadata", d.m = c.m) \cup
        Chk("C05.returns_new_chunks", ret = k) \cup
        Chk("C05.earlier_chunks", Len(d.ch) >= Len(c.ch)
                                  /\ SubSeq(d.ch, 1, Len(c.ch) - 1) = KeptChunks(c)) \cup
        SlotClauses(c, k, d) \cup
        Chk("C02.append_keeps_header", /\ d.chunk = c.chunk /\ d.csum = c.csum
                                       /\ d.ts = c.ts /\ d.offs = c.offs) \cup
        GeometryClauses(d)

\* the weaker promise while an append of `piece` to c is in progress
\* (C11): everything before the last chunk is as it was
PrefixKept(c, d) ==
    /\ Len(d.ch) >= Len(c.ch) - 1
    /\ SubSeq(d.ch, 1, Len(c.ch) - 1) = KeptChunks(c)

-----------------------------------------------------------------------------
(* Regions of a container, for damage: which part holds 0-based position p *)

\* the chunk (or its digest) that holds position p, 0 if none does
InChunk(c, p) ==
    LET pos == Positions(c)
        in(i) == pos[i] <= p /\ p < pos[i+1]
    IN  IF \E i \in 1..Len(c.ch) : in(i)
        THEN CHOOSE i \in 1..Len(c.ch) : in(i) ELSE 0
Region(c, p) ==
    IF p < HeaderLen THEN "header"
    ELSE IF p < OffsetsPos(c)
         THEN LET q == p - HeaderLen IN
              IF q < MetaHdrLen THEN "metaheader"
              ELSE IF q < MetaHdrLen + c.m.comp THEN "metadata"
              ELSE IF q < MetaHdrLen + c.m.max THEN "metapad" ELSE "metadigest"
    ELSE IF p < DataPos(c) THEN "offsets"
    ELSE IF p >= TotalLen(c) THEN "trailing"
    ELSE LET i == InChunk(c, p)
         IN  IF p - ChunkPositions(c)[i] < c.ch[i].k THEN "chunk" ELSE "digest"

Protected(c, region) ==
    \/ region \in {"chunk", "digest"} /\ c.csum # 0
    \/ region \in {"metadata", "metadigest"} /\ c.m.csum # 0
=============================================================================
