------------------------------ MODULE Snapshot ------------------------------
(***************************************************************************)
(* From the raw bytes of an observed container to the abstract container   *)
(* of Format, and the clauses of the documented byte layout.               *)
(*                                                                         *)
(* A snapshot o has the raw bytes of the header (hdr), the facts about the *)
(* metadata section (m, with its raw header mh), the raw used entries of   *)
(* the offsets table (tab), the number of reserved entries (resv) and      *)
(* whether they are all -1 (resvok), the chunks found by walking the file  *)
(* (ch), the number of bytes after the last one (trail), the size, a hash  *)
(* h of everything, and bad, which is "" if the walk got to the end.       *)
(***************************************************************************)
EXTENDS Format

Magic == <<98, 108, 112, 107>>                      \* "blpk"
JSONMagic == <<74, 83, 79, 78, 0, 0, 0, 0>>         \* "JSON"
Version == 3

Readable(o) == o.bad = "" /\ Len(o.hdr) = HeaderLen

\* fields of the 32 byte header
HMagic(b)   == Slice(b, 0, 4)
HVersion(b) == b[5]
HOptions(b) == b[6]
HOffsets(b) == b[6] % 2 = 1
HMeta(b)    == (b[6] \div 2) % 2 = 1
HChecksum(b) == b[7]
HTypesize(b) == b[8]
HChunk(b)   == I32(b, 8)
HLast(b)    == I32(b, 12)
HN(b)       == I64(b, 16)
HCap(b)     == I64(b, 24)

\* fields of the 32 byte metadata header
MMagic(b)   == Slice(b, 0, 8)
MOptions(b) == b[9]
MChecksum(b) == b[10]
MCodec(b)   == b[11]
MLevel(b)   == b[12]
MRaw(b)     == U32(b, 12)
MMax(b)     == U32(b, 16)
MComp(b)    == U32(b, 20)
MUser(b)    == Slice(b, 24, 8)

\* the number of chunks, -1 if it is unknown
HowMany(b) == IF HN(b) = MinusOne64 THEN -1 ELSE ToInt(HN(b))
Countable(b) == HN(b) = MinusOne64 \/ Fits31(HN(b))
Streamed(o) == HN(o.hdr) = MinusOne64

SmallEnough(o) ==
    /\ Countable(o.hdr) /\ Fits31(HCap(o.hdr))
    /\ HMeta(o.hdr) => LET mh == o.m.mh IN
                       Fits31(MRaw(mh)) /\ Fits31(MMax(mh)) /\ Fits31(MComp(mh))

AbsMeta(o) ==
    IF ~HMeta(o.hdr) THEN NoMeta
    ELSE LET mh == o.m.mh IN
         [p |-> TRUE, val |-> o.m.val, raw |-> ToInt(MRaw(mh)),
          comp |-> ToInt(MComp(mh)), max |-> ToInt(MMax(mh)),
          csum |-> MChecksum(mh), codec |-> MCodec(mh), level |-> MLevel(mh)]

Abs(o) ==
    [offs |-> HOffsets(o.hdr), csum |-> HChecksum(o.hdr), ts |-> HTypesize(o.hdr),
     chunk |-> HChunk(o.hdr), last |-> HLast(o.hdr),
     n |-> HowMany(o.hdr), cap |-> ToInt(HCap(o.hdr)),
     m |-> AbsMeta(o),
     ch |-> [i \in 1..Len(o.ch) |-> [d |-> o.ch[i].d, k |-> o.ch[i].k, raw |-> o.ch[i].raw]]]

\* what the header alone says, also of a container that can not be walked
HeaderThere(o) == Len(o.hdr) = HeaderLen /\ Countable(o.hdr) /\ Fits31(HCap(o.hdr))
HeaderOnly(o) ==
    [offs |-> HOffsets(o.hdr), csum |-> HChecksum(o.hdr), ts |-> HTypesize(o.hdr),
     chunk |-> HChunk(o.hdr), last |-> HLast(o.hdr),
     n |-> HowMany(o.hdr), cap |-> ToInt(HCap(o.hdr)),
     m |-> [NoMeta EXCEPT !.p = HMeta(o.hdr)], ch |-> <<>>]

\* C03: every container left by a successful operation looks like this
LayoutClauses(o) ==
    IF ~Readable(o) \/ ~SmallEnough(o)
    THEN {"C03.sections"} \cup
         Chk("C04.section", o.bad \notin {"metadata header", "metadata section"}) ELSE
    LET c == Abs(o)
        pos == ChunkPositions(c)
        h == o.hdr
    IN  Chk("C03.magic", HMagic(h) = Magic) \cup
        Chk("C03.version", HVersion(h) = Version) \cup
        Chk("C03.options", HOptions(h) \in 0..3) \cup
        Chk("C03.chunk_positions", \A i \in 1..Len(o.ch) : o.ch[i].pos = pos[i]) \cup
        Chk("C03.chunks_decompress", \A i \in 1..Len(o.ch) : o.ch[i].dec) \cup
        Chk("C03.used_offsets", IF c.offs
              THEN /\ Len(o.tab) = c.n
                   /\ \A i \in 1..Len(o.ch) : i <= Len(o.tab) /\ o.tab[i] = FromInt(pos[i])
              ELSE o.tab = <<>>) \cup
        Chk("C03.reserved_offsets", o.resv = (IF c.offs THEN c.cap ELSE 0) /\ o.resvok) \cup
        Chk("C03.digests", \A i \in 1..Len(o.ch) : o.ch[i].dg) \cup
        Chk("C03.nothing_else", o.trail = 0 /\ o.size = TotalLen(c)) \cup
        (IF c.m.p
         THEN Chk("C03.meta_magic", MMagic(o.m.mh) = JSONMagic) \cup
              Chk("C03.meta_reserved", MOptions(o.m.mh) = 0 /\ AllZero(MUser(o.m.mh))) \cup
              Chk("C04.padding", o.m.pad /\ o.m.padlen = c.m.max - c.m.comp) \cup
              Chk("C04.digest", o.m.dg) \cup
              Chk("C04.decodes", o.m.dec) \cup
              Chk("C04.true_raw_size", o.m.rawlen = c.m.raw) \cup
              Chk("C04.true_stored_size", o.m.stored = c.m.comp)
         ELSE {})

\* byte for byte the same before the offsets table
SameMetaBytes(o, p) ==
    IF HMeta(o.hdr) THEN HMeta(p.hdr) /\ p.m.bytes = o.m.bytes ELSE ~HMeta(p.hdr)
=============================================================================
