------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validates executions recorded from the real code.  Each line of the     *)
(* trace is one step (a public operation that returned or raised, or a     *)
(* change made by the environment: damage, truncation).  The state is what *)
(* the specification says about each file; every step yields the set of    *)
(* clauses it violates, collected in TLC register 1 and written out by the *)
(* postcondition, so the verdict is total and names the clauses.           *)
(***************************************************************************)
EXTENDS Snapshot, Fingerprint, Header, Domain, Ndarray, Cli, Verbosity, Settings, Objects, Report, TLC, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next line
          st,     \* file name -> what we know about it
          seen    \* comparison key -> outcome

vars == <<l, st, seen>>

PR == INSTANCE Protocol

Files == DOMAIN st
Put(f, r) == [g \in DOMAIN st \cup {f} |-> IF g = f THEN r ELSE st[g]]
Gone(f)   == [g \in DOMAIN st \ {f} |-> st[g]]
Known(f)  == f \in DOMAIN st

\* nd: the array that the metadata describes
NotAnArray == [p |-> "bad"]
\* A container that an operation left behind and said was fine.  It is "unsound" when
\* it can not even be walked: what it should hold is known all the same, so
\* reading it is still judged; how it would be appended to is not.
Sound(o) == /\ Readable(o) /\ SmallEnough(o)
            /\ LET c == Abs(o) IN Len(c.ch) > 0 /\ Len(c.ch) = c.n
Good(o, g, gm, hist) == [o |-> o, g |-> g, gm |-> gm, hist |-> hist, nd |-> NotAnArray,
                         is |-> IF Sound(o) THEN "good" ELSE "unsound",
                         regions |-> {}, ats |-> {}]
WithNd(s, nd) == [s EXCEPT !.nd = nd]
IsGood(f) == Known(f) /\ st[f].is = "good"
\* the metadata "null" and no metadata are the same thing to a reader
Shown(gm) == IF gm = "null" THEN "" ELSE gm
Composed(s) == "composed" \in s.hist
Stored(s) == s.is \in {"good", "unsound"}

-----------------------------------------------------------------------------
(* Settings: when the event says what was asked for (z), the chunks from one *)
(* on were written with that                                                 *)

SettingsClauses(e, o, ts, from) ==
    IF "z" \notin DOMAIN e THEN {} ELSE
    LET z == Fill(e.z.g, ts)
        written == from..Len(o.ch)
    IN  Chk("X.settings", e.z.u = z /\ Len(e.z.al) = Len(o.ch)) \cup
        (IF o.bad # "" THEN {}
         ELSE Chk("C24.header", \A i \in written : ShownBy(z, o.ch[i])) \cup
              Chk("C24.as_blosc", \A i \in written : i \in DOMAIN e.z.al => e.z.al[i]))
\* the first chunk that an append of so much writes: with nothing to add to the last
\* one it may leave that alone
FirstWritten(c, size) == IF size > 0 /\ Room(c) > 0 THEN c.n ELSE c.n + 1

-----------------------------------------------------------------------------
(* Containers written by somebody else.  What follows the documented format *)
(* is to be read, whatever it leaves unknown; what moreover has everything  *)
(* that the library itself puts into a container is like one of its own.    *)

TableOf(o) ==
    IF ~HOffsets(o.hdr) THEN "none"
    ELSE IF \A i \in DOMAIN o.tab : o.tab[i] = MinusOne64 THEN "unknown" ELSE "known"
Conforming(o) ==
    /\ Readable(o) /\ SmallEnough(o)
    /\ LayoutClauses(o) \ {"C04.padding", "C03.meta_reserved", "C03.used_offsets"} = {}
    /\ "C03.used_offsets" \in LayoutClauses(o) => TableOf(o) = "unknown"
    /\ HMeta(o.hdr) => MLevel(o.m.mh) \in 0..9
    /\ LET c == Abs(o)
           sizes == ChunkData(c)
           n == Len(c.ch)
       IN  /\ c.n = n \/ (c.n = -1 /\ ~c.offs /\ c.cap = 0)
           /\ c.chunk # -1 => \A i \in 1..(n - 1) : Size(sizes[i]) = c.chunk
           /\ c.chunk # -1 /\ n > 0 => Size(sizes[n]) <= c.chunk
           /\ c.last # -1 /\ n > 0 => Size(sizes[n]) = c.last
LikeOwn(o) == /\ Sound(o) /\ LayoutClauses(o) \ {"C04.padding", "C03.meta_reserved"} = {}
              /\ GeometryClauses(Abs(o)) = {} /\ Abs(o).ts > 0
ComposeStep(e) ==
    [v |-> Chk("X.conforming", /\ Conforming(e.post)
                               /\ Content(Abs(e.post)) = e.data
                               /\ (e.val # "") = HMeta(e.post.hdr)
                               /\ e.val # "" => e.post.m.val = e.val),
     st |-> Put(e.f, [WithNd(Good(e.post, e.data, e.val, {"composed"}), e.nd)
                      EXCEPT !.is = IF LikeOwn(e.post) THEN "good" ELSE "unsound"])]
-----------------------------------------------------------------------------
(* Packing *)

\* a chunk size is a number or a human readable size such as "1.5K": num/den * mul
RequestedChunk(e) ==
    Greater(1, IF e.req.csr.den = 0 THEN e.req.cs
               ELSE (e.req.csr.num * e.req.csr.mul) \div e.req.csr.den)
Requested(e) ==
    [cs |-> RequestedChunk(e),
     offs |-> e.req.offs, csum |-> e.req.csum, ts |-> e.req.ts,
     \* a reserve is a number (mul = 0) or a linear function of the number of
     \* chunks (of the size of the serialized metadata)
     cap |-> e.req.cap.mul * Chunking(Size(e.data), RequestedChunk(e)).n + e.req.cap.add,
     m |-> IF ~e.req.m.p THEN NoMeta
           ELSE [p |-> TRUE, val |-> e.req.m.val, raw |-> e.req.m.raw, z |-> e.req.m.z,
                 codec |-> e.req.m.codec, level |-> e.req.m.level, csum |-> e.req.m.csum,
                 max |-> e.req.m.max.mul * e.req.m.raw + e.req.m.max.add]]

PackStep(e) ==
    LET r == Requested(e)
        can == ~r.m.p \/ MetaFits(r.m)
    IN  IF e.ok
        THEN [v |-> (IF ~can THEN {"C04.refused"} ELSE {}) \cup
                    (IF Readable(e.post) /\ SmallEnough(e.post)
                     THEN PackClauses(r, e.data, Abs(e.post))
                          \cup MetaClauses(r.m, AbsMeta(e.post))
                     ELSE IF HeaderThere(e.post)
                     THEN PackHeaderClauses(r, Size(e.data), HeaderOnly(e.post))
                     ELSE {"C02.header"}) \cup LayoutClauses(e.post) \cup
                    SettingsClauses(e, e.post, 8, 1),
              st |-> Put(e.f, WithNd(Good(e.post, e.data,
                                          IF r.m.p THEN r.m.val ELSE "", {}), e.nd))]
        ELSE [v |-> IF can THEN {"C01.accepted"} ELSE {},
              st |-> Gone(e.f)]

\* packing into memory: no layout, but the same header, chunks, digests
MemPackStep(e) ==
    LET r == Requested(e)
        c == Abs(e.post)
    IN  IF e.ok
        THEN [v |-> PackHeaderClauses(r, Size(e.data), c) \cup GeometryClauses(c) \cup
                    Chk("C01.stored_content", Content(c) = e.data) \cup
                    Chk("C21.memory_digests", \A i \in 1..Len(e.post.ch) : e.post.ch[i].dg) \cup
                    Chk("C02.metadata_flag", e.metaflag = (e.want # "")) \cup
                    Chk("C21.memory_metadata", e.mval = e.want) \cup
                    SettingsClauses(e, e.post, 8, 1),
              st |-> Put(e.f, WithNd(Good(e.post, e.data, e.want, {}), e.nd))]
        ELSE [v |-> {"C01.accepted"}, st |-> Gone(e.f)]

-----------------------------------------------------------------------------
(* Reading *)

Tags(f, s) == IF "composed" \in st[f].hist THEN {"C25." \o s} ELSE {"C01." \o s} \cup
              (IF "driven" \in st[f].hist THEN {"C27." \o s} ELSE {}) \cup
              (IF st[f].gm # "" THEN {"C04." \o s} ELSE {}) \cup
              (IF "append" \in st[f].hist THEN {"C05." \o s} ELSE {}) \cup
              (IF "rewrite" \in st[f].hist THEN {"C07." \o s} ELSE {})

UnpackStep(e) ==
    LET s == st[e.f] IN
    [v |-> IF ~Known(e.f) THEN {}
           ELSE IF Stored(s)
           THEN (IF e.ok /\ e.data = s.g THEN {} ELSE Tags(e.f, "read")) \cup
                (IF ~e.ok \/ e.val = Shown(s.gm) THEN {}
                 ELSE {"C04.read"} \cup Tags(e.f, "read_metadata"))
           ELSE IF s.is = "damaged" THEN Chk("C08.detected", ~e.ok)
           ELSE IF s.is = "truncated" THEN Chk("C09.refused", ~e.ok)
           ELSE IF s.is = "foreign" THEN Chk("C16.foreign", ~e.ok)
           ELSE {},
     st |-> st]

-----------------------------------------------------------------------------
(* Appending *)

AppendStep(e) ==
    LET s == st[e.f]
        c == Abs(s.o)
        can == CanAppend(c, Size(e.data)) /\ e.valid
        ret == IF e.ret = -1 THEN NewChunks(c, Size(e.data)) ELSE e.ret
    IN  IF ~Known(e.f) THEN [v |-> {}, st |-> st]
        ELSE IF s.is = "good"
        THEN IF e.ok
             THEN [v |-> (IF can THEN {} ELSE {"C23.refused", "C06.refused"}) \cup
                         (IF ~can THEN {}
                          ELSE IF Readable(e.post) /\ SmallEnough(e.post)
                          THEN AppendClauses(c, e.data, ret, Abs(e.post))
                          ELSE {"C05.readable"} \cup
                               (IF HeaderThere(e.post)
                                THEN SlotClauses(c, NewChunks(c, Size(e.data)), HeaderOnly(e.post))
                                ELSE {"C23.header"})) \cup
                         (LayoutClauses(e.post) \ LayoutClauses(s.o)) \cup
                         (IF can THEN SettingsClauses(e, e.post, IF e.entry = "cli" THEN 8 ELSE c.ts,
                                                      FirstWritten(c, Size(e.data))) ELSE {}) \cup
                         Chk("C05.nothing_else", Readable(e.post) /\ s.o.trail = 0 => e.post.trail = 0) \cup
                         Chk("C05.metadata_bytes", Readable(e.post) => SameMetaBytes(s.o, e.post)),
                   st |-> Put(e.f, WithNd(Good(e.post, Cat(s.g, e.data), s.gm, s.hist \cup {"append"}), s.nd))]
             ELSE [v |-> (IF can THEN {"C23.accepted", "C05.accepted"} ELSE {}) \cup
                         Chk("C06.untouched", e.post.h = s.o.h),
                   st |-> IF e.post.h = s.o.h THEN st ELSE Gone(e.f)]
        ELSE IF s.is = "damaged"
        THEN LET reads == \/ s.regions \cap {"metadata", "metadigest"} # {}
                          \/ c.n \in s.ats       \* the chunk to be filled up
             IN  IF reads
                 THEN [v |-> Chk("C08.append", ~e.ok) \cup
                             Chk("C06.untouched", e.ok \/ e.post.h = s.o.h),
                       st |-> IF e.post.h = s.o.h THEN st ELSE Gone(e.f)]
                 ELSE [v |-> Chk("C06.untouched", e.ok \/ e.post.h = s.o.h), st |-> Gone(e.f)]
        ELSE IF s.is = "unsound" /\ Composed(s) /\ e.ok
        \* the container leaves things unknown.  It need not be appended to, but if it is,
        \* what it states must be true afterwards
        THEN [v |-> Chk("C25.appended", /\ Conforming(e.post) /\ e.valid
                                        /\ Content(Abs(e.post)) = Cat(s.g, e.data)
                                        /\ SameMetaBytes(s.o, e.post)),
              st |-> Put(e.f, [WithNd(Good(e.post, Cat(s.g, e.data), s.gm, s.hist \cup {"append"}), s.nd)
                               EXCEPT !.is = IF Conforming(e.post) /\ LikeOwn(e.post) THEN "good" ELSE "unsound"])]
        ELSE [v |-> Chk("C06.untouched", e.ok \/ e.post.h = s.o.h) \cup
                    Chk("C16.foreign", s.is = "foreign" => ~e.ok),
              st |-> IF e.post.h = s.o.h THEN st ELSE Gone(e.f)]

-----------------------------------------------------------------------------
(* Packs and appends that were interrupted, or during which a read or a    *)
(* write failed.  The event describes the medium at that point (see Store) *)

CrashStep(e) ==
    LET s == st[e.f]
        quietly == e.fired /\ e.ok
    IN  [v |-> IF ~IsGood(e.f) THEN {}
               ELSE IF e.kind = "pack"
               THEN Chk("C10.offsets_last", Range(e.table) \cap {"final", "other"} # {} => e.chunks = "all") \cup
                    Chk("C10.read", e.rok => e.rdata = s.g /\ e.rval = Shown(s.gm)) \cup
                    Chk("C10.surfaces", quietly => e.final)
               ELSE Chk("C11.kept", \A i \in DOMAIN e.keep : e.keep[i]) \cup
                    Chk("C11.read", e.rok => /\ Size(e.pre) <= Size(e.piece)
                                             /\ e.rdata = Cat(s.g, e.pre)
                                             /\ e.rval = Shown(s.gm)) \cup
                    \* input for the last chunk alone may end early and is then
                    \* appended as far as it goes (test_append_single_chunk)
                    Chk("C11.surfaces", quietly => \/ e.final
                                                   \/ /\ e.mode = "fault:eof:in" /\ e.rok
                                                      /\ Size(e.piece) <= Room(Abs(s.o))),
         st |-> st]

-----------------------------------------------------------------------------
(* Metadata that was being replaced (see Replace), by itself or after data  *)
(* had been appended.  blind: the digest is right for torn bytes            *)

ReplacedStep(e) ==
    LET s == st[e.f]
        old == Shown(s.gm)
        new == Shown(e.val)
        quietly == e.fired /\ e.ok
    IN  [v |-> IF ~IsGood(e.f) THEN {}
               ELSE Chk("C29.outside", e.outside) \cup
                    Chk("C29.data", e.rok /\ ~e.torn => Size(e.pre) <= Size(e.piece) /\ e.rdata = Cat(s.g, e.pre)) \cup
                    Chk("C29.value", e.rok /\ e.checked /\ ~e.blind => e.rval \in {old, new}) \cup
                    Chk("C29.after_data", e.rok /\ e.checked /\ ~e.blind /\ e.rval = new /\ new # old => e.pre = e.piece) \cup
                    Chk("C29.surfaces", quietly => e.final) \cup
                    Chk("C29.again", /\ e.again # "wrong"
                                     /\ e.again = "err" => ~(e.rok /\ e.checked /\ ~e.blind /\ e.rval = old /\ new # old)),
         st |-> st]

-----------------------------------------------------------------------------
(* Unpacking that failed, or not (see Deliver).  limit: where the chunk     *)
(* begins the digest of which is wrong; kept: the output is as it was       *)

DeliverStep(e) ==
    LET s == st[e.f]
    IN  [v |-> IF ~IsGood(e.f) THEN {}
               ELSE Chk("C30.container", e.untouched) \cup
                    Chk("C30.beginning", e.kept \/ e.out = e.pre) \cup
                    Chk("C30.verified", e.limit # -1 => ~e.ok /\ (e.kept \/ e.length <= e.limit)) \cup
                    Chk("C30.says", e.ok => e.alike /\ (~e.array => e.data = s.g)) \cup
                    Chk("C30.surfaces", e.fired /\ e.ok => e.alike) \cup
                    Chk("C30.works", ~e.fired /\ e.limit = -1 => e.ok),
         st |-> st]

-----------------------------------------------------------------------------
(* Any bytes whatever, read (see Hostile).  The walk of the snapshot says    *)
(* what they describe, if anything; memory is in KiB                         *)

\* whatever the capacity is said to be
Describes(o) == /\ Readable(o) /\ Countable(o.hdr)
                /\ \A i \in DOMAIN o.ch : o.ch[i].dec /\ o.ch[i].dg
                /\ HMeta(o.hdr) => o.m.dec /\ o.m.dg
HostileStep(e) ==
    LET o == e.post
        readers == {r \in Range(e.seen) : r.by \notin {"replace", "append"}}
        plain == {r \in readers : r.by \notin {"nd", "info"}}
        fit == 32768 + 20 * (e.size + e.plain)
    IN  [v |-> Chk("C31.container", e.untouched) \cup
               Chk("C31.ends", \A r \in Range(e.seen) : r.err # "Hang") \cup
               Chk("C31.memory", \A r \in Range(e.seen) : r.mem <= fit) \cup
               Chk("C31.agree", \A r, q \in plain : r.ok = q.ok /\ r.data = q.data /\ (r.told /\ q.told => r.val = q.val)) \cup
               Chk("C31.describes", \A r \in readers \ {q \in readers : q.by = "info"} : r.ok =>
                       /\ Describes(o)
                       /\ r.data = CatAll([i \in DOMAIN o.ch |-> o.ch[i].d])
                       /\ r.told => r.val = (IF HMeta(o.hdr) THEN Shown(o.m.val) ELSE "")) \cup
               Chk("C31.accepts", Readable(o) /\ Conforming(o) => \A r \in plain : r.ok) \cup
               Chk("C31.refused", \A r \in Range(e.seen) \ readers : r.ok \/ r.val = "kept"),
         st |-> st]

-----------------------------------------------------------------------------
(* Streaming: the reads of the input and the completed output, in order    *)

MaxAhead == 4       \* chunks

\* a: [at: end of the input read so far, done: output completed, ok: clauses]
IoStep(e) ==
    LET see(a, x) ==
            IF x.t = "w" THEN [a EXCEPT !.done = x.done]
            ELSE [a EXCEPT !.at = Greater(a.at, x.pos + x.got),
                           !.bad = a.bad
                     \cup Chk("C22.read_size", x.n <= e.unit)
                     \cup Chk("C22.in_order_once", x.got = 0 \/ x.pos = a.at)
                     \cup Chk("C22.lookahead", x.pos + x.got - a.done <= MaxAhead * e.unit)]
        r == FoldLeft(see, [at |-> 0, done |-> 0, bad |-> {}], e.steps)
    IN  [v |-> r.bad \cup Chk("C22.all_read", r.at = e.total), st |-> st]

\* unpacking: the input are chunks, numbered from 0
IoChunksStep(e) ==
    LET see(a, x) ==
            IF x.t = "w" THEN [a EXCEPT !.done = x.chunks]
            ELSE [a EXCEPT !.at = x.last,
                           !.bad = a.bad
                     \cup Chk("C22.read_size", ~x.big)
                     \cup Chk("C22.in_order_once", x.first >= a.at)
                     \cup Chk("C22.lookahead", x.last < a.done + MaxAhead)]
        r == FoldLeft(see, [at |-> 0, done |-> 0, bad |-> {}], e.steps)
    IN  [v |-> r.bad \cup Chk("C22.all_written", r.done = e.n \/ e.total = 0), st |-> st]

-----------------------------------------------------------------------------
(* Replacing metadata *)

RewriteStep(e) ==
    LET s == st[e.f]
        c == Abs(s.o)
        can == CanRewrite(c, e.q)
        d == Abs(e.post)
    IN  IF ~Known(e.f) THEN [v |-> {}, st |-> st]
        ELSE IF s.is = "good"
        THEN IF e.ok
             THEN [v |-> IF ~can THEN {"C06.refused", "C07.refused"}
                         ELSE IF ~Readable(e.post) \/ ~SmallEnough(e.post) THEN {"C07.readable"}
                         ELSE MetaClauses(RewriteRequest(c.m, e.q), d.m) \cup
                              Chk("C07.as_requested", MetaClauses(RewriteRequest(c.m, e.q), d.m) = {}) \cup
                              (LayoutClauses(e.post) \ LayoutClauses(s.o)) \cup
                              Chk("C07.value", d.m.p /\ d.m.val = e.q.val) \cup
                              Chk("C07.reserved_size", d.m.p /\ d.m.max = c.m.max) \cup
                              Chk("C07.header", e.post.hdr = s.o.hdr) \cup
                              Chk("C07.offsets", /\ e.post.tab = s.o.tab
                                                 /\ e.post.resv = s.o.resv /\ e.post.resvok) \cup
                              Chk("C07.chunks", e.post.ch = s.o.ch) \cup
                              Chk("C07.size", e.post.size = s.o.size) \cup
                              Chk("C07.section", d.m.p /\ (e.post.m.pad \/ ~s.o.m.pad) /\ e.post.m.dg /\ e.post.m.dec
                                     /\ e.post.m.rawlen = d.m.raw /\ e.post.m.stored = d.m.comp),
                   st |-> Put(e.f, WithNd(Good(e.post, s.g, e.q.val, s.hist \cup {"rewrite"}), e.nd))]
             ELSE [v |-> (IF can THEN {"C07.accepted"} ELSE {}) \cup
                         Chk("C06.untouched", e.post.h = s.o.h),
                   st |-> IF e.post.h = s.o.h THEN st ELSE Gone(e.f)]
        ELSE [v |-> (IF s.is = "damaged" /\ s.regions \cap {"metadata", "metadigest"} # {}
                     THEN Chk("C08.rewrite", ~e.ok) ELSE {}) \cup
                    Chk("C06.untouched", e.ok \/ e.post.h = s.o.h),
              st |-> IF e.post.h = s.o.h THEN st ELSE Gone(e.f)]

-----------------------------------------------------------------------------
(* The environment: damage to some bytes, truncation, repair *)

\* there is a chunk, and where everything is is known
CanBeHurt(f) == \/ IsGood(f)
                \/ Known(f) /\ st[f].is = "unsound" /\ Composed(st[f]) /\ Len(st[f].o.ch) > 0
\* e.at: the positions of the bytes that are different now
DamageStep(e) ==
    LET s == st[e.f]
        c == Abs(s.o)
        ps == {p \in Range(e.at) : Protected(c, Region(c, p))}
    IN  IF ~CanBeHurt(e.f) THEN [v |-> {}, st |-> st]
        ELSE [v |-> {},
              st |-> Put(e.g, [s EXCEPT !.o = [s.o EXCEPT !.h = e.h],
                                        !.is = IF ps # {} /\ ~e.collides THEN "damaged" ELSE "unknown",
                                        !.regions = {Region(c, p) : p \in ps},
                                        !.ats = {InChunk(c, p) : p \in ps} \ {0}])]

\* a container in memory: a chunk, or its digest, altered
MemHurtStep(e) ==
    LET s == st[e.f]
        what == IF e.what = "digest" THEN "digest" ELSE "chunk"
    IN  IF ~IsGood(e.f) THEN [v |-> {}, st |-> st]
        ELSE [v |-> {},
              st |-> Put(e.g, [s EXCEPT !.is = IF Protected(Abs(s.o), what) /\ ~e.collides
                                              THEN "damaged" ELSE "unknown",
                                        !.regions = {what}, !.ats = {e.i}])]

TruncStep(e) ==
    LET s == st[e.f] IN
    IF ~CanBeHurt(e.f) \/ e.len >= s.o.size THEN [v |-> {}, st |-> st]
    ELSE [v |-> {}, st |-> Put(e.g, [s EXCEPT !.o = [s.o EXCEPT !.h = e.h],
                                           \* between chunks that nobody counted
                                           !.is = IF Streamed(s.o) /\ e.len \in Range(Positions(Abs(s.o)))
                                                  THEN "unknown" ELSE "truncated"])]

\* the header or the metadata header replaced by other bytes
SetHeaderStep(e) ==
    LET s == st[e.f]
        foreign == IF e.k = "bp" THEN ~DecodableHeader(e.b) \/ e.b[5] # Version
                   ELSE ~DecodableMeta(e.b)
    IN  IF ~IsGood(e.f) THEN [v |-> {}, st |-> st]
        ELSE [v |-> {}, st |-> Put(e.g, [s EXCEPT !.o = [s.o EXCEPT !.h = e.h],
                                        !.is = IF e.h = s.o.h THEN s.is
                                               ELSE IF foreign THEN "foreign" ELSE "unknown"])]

CopyStep(e) == [v |-> {}, st |-> IF Known(e.f) THEN Put(e.g, st[e.f]) ELSE st]

-----------------------------------------------------------------------------
(* Arrays *)

NdPackStep(e) ==
    LET r == Requested(e)
        fits == ChunkFits(e.nbytes, r.cs, Greater(1, e.item))
        ord == Order(e.sh, e.sd, e.item)
        c == Abs(e.post)
        data == IF e.exact THEN e.data ELSE IF e.ok /\ Sound(e.post) THEN Content(c) ELSE Nil
    IN  IF ~e.ok
        THEN [v |-> IF ~e.object /\ fits /\ Storable(e.item) THEN {"C12.accepted"} ELSE {}, st |-> Gone(e.f)]
        ELSE IF e.object THEN [v |-> {"C13.objects"}, st |-> Gone(e.f)]
        ELSE [v |-> Chk("C12.refused", fits) \cup
                    (IF e.mem
                     THEN PackHeaderClauses([r EXCEPT !.m = NoMeta], e.nbytes, c) \cup GeometryClauses(c)
                          \cup Chk("C12.stored_content", Content(c) = data)
                     ELSE (IF Readable(e.post) /\ SmallEnough(e.post)
                           THEN PackHeaderClauses(r, e.nbytes, c) \cup GeometryClauses(c)
                                \cup Chk("C12.stored_content", Content(c) = data)
                                \cup MetaClauses(r.m, AbsMeta(e.post))
                           ELSE {}) \cup LayoutClauses(e.post)) \cup
                    Chk("C12.described", /\ e.md.p /\ e.md.sh = e.sh /\ e.md.order = ord
                                         /\ e.md.container = "numpy") \cup
                    SettingsClauses(e, e.post, e.item, 1),
              st |-> Put(e.f, WithNd(Good(e.post, data, r.m.val, {}),
                              [p |-> "array", need |-> e.nbytes, dt |-> e.dt, sh |-> e.sh,
                               order |-> ord, el |-> e.el]))]

NdUnpackStep(e) ==
    LET s == st[e.f] IN
    [v |-> Chk("C13.outside", ~e.outside) \cup
           (IF ~Known(e.f) THEN {}
            ELSE IF Stored(s)
            THEN IF s.nd.p # "array" THEN Chk("C13.not_an_array", ~e.ok /\ e.err = "NotANumpyArray")
                 ELSE IF s.nd.need # Size(s.g) THEN Chk("C13.size", ~e.ok)
                 ELSE IF ~e.ok THEN {"C12.restored"}
                 ELSE Chk("C12.is_array", e.array) \cup
                      Chk("C12.dtype", e.dt = s.nd.dt) \cup
                      Chk("C12.shape", e.sh = s.nd.sh) \cup
                      Chk("C12.order", e.order = s.nd.order) \cup
                      Chk("C12.elements", e.el = s.nd.el)
            ELSE IF s.is = "damaged" THEN Chk("C08.detected", ~e.ok)
            ELSE IF s.is = "truncated" THEN Chk("C09.refused", ~e.ok)
            ELSE IF s.is = "foreign" THEN Chk("C16.foreign", ~e.ok)
            ELSE {}),
     st |-> st]

-----------------------------------------------------------------------------
(* Parameters inside and outside their domains *)

DomStep(e) ==
    LET bad == {p \in DOMAIN e.ps : Relevant(p, e.r) /\ ~InDomain(p, e.ps[p])}
    IN  [v |-> (IF bad # {} THEN Chk("C17.refused", ~e.ok)
                ELSE Chk("C17.accepted", MustAccept(e.ps, e.r) => e.ok)) \cup
               Chk("C17.usable", e.ok => e.usable),
         st |-> st]

\* len: twelve bytes; the results are checked by n * chunk = len + chunk - last
ChunkingStep(e) ==
    LET Len8(x) == Slice(x.len, 0, 8)
        bad(x) == TooMany(x.len, x.cs)
        empty(x) == \A i \in 1..12 : x.len[i] = 0
        \* a length at most the chunk size is one chunk
        single(x) == ULeq12(x.len, Mul64(FromInt(x.cs), 1))
        right(x) ==
            IF empty(x) THEN x.n = One64 /\ x.chunk = 0 /\ x.last = 0
            ELSE IF single(x) THEN x.n = One64 /\ FromInt(x.chunk) = Len8(x) /\ x.last = x.chunk
            ELSE /\ x.chunk = x.cs /\ x.last \in 1..x.cs
                 /\ Less64(Zero64, x.n)
                 /\ Mul64(x.n, x.cs) = Add12(x.len, FromInt(x.cs - x.last) \o <<0, 0, 0, 0>>)
        one(x) == IF bad(x) THEN Chk("C17.chunks_countable", ~x.ok)
                  ELSE IF ~x.ok THEN {"C17.accepted"}
                  ELSE Chk("C02.chunking", right(x))
    IN  [v |-> UNION { one(e.xs[i]) : i \in DOMAIN e.xs }, st |-> st]

CapacityStep(e) ==
    LET one(x) == IF ~x.ok THEN {"C17.accepted"}
                  ELSE Chk("C02.capacity", x.ocap = Capacity64(x.offs, x.n, x.cap)) \cup
                       Chk("C02.nchunks_expected", x.on = x.n)
    IN  [v |-> UNION { one(e.xs[i]) : i \in DOMAIN e.xs }, st |-> st]

-----------------------------------------------------------------------------
(* The command line *)

\* st is indexed by the names of containers without their extension
Key(n) == IF HasExt(n) THEN Strip(n) ELSE "~" \o n
Listing(xs) == [n \in { xs[i].n : i \in DOMAIN xs } |->
                   LET i == CHOOSE j \in DOMAIN xs : xs[j].n = n
                   IN  [t |-> xs[i].t, id |-> xs[i].id, h |-> xs[i].h]]
SameListed(a, b) == a.t = b.t /\ a.h = b.h
Plain == [o |-> [h |-> "", hdr |-> <<>>], g |-> Nil, gm |-> "", hist |-> {}, nd |-> NotAnArray,
          is |-> "plain", regions |-> {}, ats |-> {}]

FileStep(e) ==
    [v |-> {},
     st |-> CASE e.kind = "plain" -> Put(Key(e.f), Plain)
              [] e.kind = "link"  -> IF Known(Key(e.to)) THEN Put(Key(e.f), st[Key(e.to)]) ELSE Gone(Key(e.f))
              [] OTHER            -> Gone(Key(e.f))]

OptionOk(p, x) ==
    CASE p = "nt" -> IntIn(x, 1, FromInt(256))
      [] p = "cs" -> InDomain("cs", x) \/ (x.t = "name" /\ x.s = "max")
      [] p = "csum" -> x.t = "name" /\ x.s \in SumNames
      [] OTHER    -> InDomain(p, x)
\* the size of the chunks of nothing does not matter
BadOption(e) == \E p \in DOMAIN e.ps : ~OptionOk(p, e.ps[p]) /\ (p = "cs" => Size(e.data) > 0)
FineOptions(e) == \A p \in DOMAIN e.ps : OptionOk(p, e.ps[p])

Unknown == [Plain EXCEPT !.is = "unknown"]
Input(e) == IF Known(Key(e.c.in)) THEN st[Key(e.c.in)] ELSE Unknown
\* info reads the metadata; of the chunks it only looks at a header
InfoSees(s) == s.regions \cap {"metadata", "metadigest"} # {}

\* what -m asks an append to do with the metadata
HasMeta(e) == e.m.given /\ e.m.ok /\ ~e.m.null
AppendMeta(e) == [val |-> e.m.val, raw |-> e.m.raw, z |-> e.m.z, codec |-> 1, level |-> 6, csum |-> -1, fmt |-> TRUE]
\* the requests of the command line that must be refused, and that must be honoured, given
\* the names are in order; the rest is left open
MustRefuse(e, s) ==
    \/ BadOption(e)
    \/ e.m.given /\ ~e.m.ok
    \/ CASE e.c.cmd = "decompress" -> s.is \in {"damaged", "truncated", "foreign", "plain"}
         [] e.c.cmd = "append" ->
              \/ s.is \in {"foreign", "plain"}
              \/ s.is = "damaged" /\ (s.regions \cap {"metadata", "metadigest"} # {} \/ Abs(s.o).n \in s.ats)
              \/ s.is = "good" /\ ~CanAppend(Abs(s.o), Size(e.data))
              \/ s.is = "good" /\ HasMeta(e) /\ ~CanRewrite(Abs(s.o), AppendMeta(e))
         [] e.c.cmd = "info" -> s.is \in {"foreign", "plain"} \/ (s.is = "damaged" /\ InfoSees(s))
         [] OTHER -> FALSE
\* what info shows: there is a first chunk
Describable(s) == s.is = "good" \/ (Stored(s) /\ Composed(s) /\ Len(s.o.ch) > 0)
MustDo(e, s) ==
    /\ FineOptions(e)
    /\ e.m.given => HasMeta(e)
    /\ CASE e.c.cmd = "compress"   -> ~HasMeta(e) \/ MetaFits(Requested(e).m)
         [] e.c.cmd = "append"     -> s.is = "good" /\ ~SameFile(Listing(e.pre), e.c.in, e.c.out)
         [] e.c.cmd = "decompress"   -> Stored(s)
         [] OTHER                  -> Describable(s)

InfoClauses(e, s) ==
    LET c == Abs(s.o)
        p == e.out
        b == e.first
        h == s.o.hdr
        mh == s.o.m.mh
        bit(k) == (b[3] \div k) % 2
        flag(x) == IF x THEN 1 ELSE 0
    IN  Chk("C15.info_header", p.hdr = <<HVersion(h), flag(HOffsets(h)), flag(HMeta(h)), HChecksum(h),
                                         HTypesize(h), HChunk(h), HLast(h), c.n, c.cap>>) \cup
        Chk("C15.info_offsets", IF c.offs
              THEN Len(p.offs) \in 1..c.n
                   /\ p.offs = (IF TableOf(s.o) = "unknown" THEN [i \in DOMAIN p.offs |-> -1]
                                ELSE SubSeq(ChunkPositions(c), 1, Len(p.offs)))
              ELSE p.offs = <<>>) \cup
        Chk("C15.info_metadata", p.val = Shown(s.gm) /\ (s.gm = "null" \/ (p.pmeta <=> c.m.p))) \cup
        Chk("C15.info_metadata_header", IF c.m.p /\ (s.gm # "null" \/ p.mnum # <<>>)
              THEN /\ p.mnum = <<c.m.csum, c.m.codec, c.m.level, c.m.raw, c.m.max, c.m.comp>>
                   /\ Len(p.mhdr) = 2 /\ p.mhdr[1] = "b'JSON'"
                   /\ AllZero(MUser(mh)) => p.mhdr[2] = "b''"
              ELSE p.mnum = <<>>) \cup
        Chk("C15.info_chunk", p.bhdr = <<b[1], b[2], b[3], b[4], ToInt(U32(b, 4)), ToInt(U32(b, 8)), ToInt(U32(b, 12))>>) \cup
        Chk("C15.info_flags", p.flags = <<bit(1), bit(2), bit(4), bit(16), b[3] \div 32>>)

CompressEffect(e) ==
    LET r == Requested(e)
        cl == (IF Readable(e.tpost) /\ SmallEnough(e.tpost)
               THEN PackClauses(r, e.data, Abs(e.tpost)) \cup MetaClauses(r.m, AbsMeta(e.tpost))
               ELSE {}) \cup LayoutClauses(e.tpost)
    IN  cl \cup Chk("C15.as_library", cl = {}) \cup SettingsClauses(e, e.tpost, 8, 1)
AppendEffect(e, s) ==
    LET c == Abs(s.o)
        d == Abs(e.tpost)
        cl == IF ~Readable(e.tpost) \/ ~SmallEnough(e.tpost) THEN {"C05.readable"}
              ELSE (LayoutClauses(e.tpost) \ LayoutClauses(s.o)) \cup
                   AppendClauses([c EXCEPT !.m = IF HasMeta(e) THEN d.m ELSE c.m], e.data,
                                 NewChunks(c, Size(e.data)), d) \cup
                   (IF HasMeta(e) THEN MetaClauses(RewriteRequest(c.m, AppendMeta(e)), d.m)
                    ELSE Chk("C05.metadata_bytes", SameMetaBytes(s.o, e.tpost)))
    IN  cl \cup Chk("C15.as_library", cl = {}) \cup
        SettingsClauses(e, e.tpost, 8, FirstWritten(c, Size(e.data)))

CmdStep(e) ==
    LET d == Listing(e.pre)
        f == Listing(e.post)
        c == e.c
        t == Target(c)
        s == Input(e)
        names == RefusedByNames(c, d)
        refuse == c.cmd = "none" \/ names \/ MustRefuse(e, s)
        did == e.rc = 0 /\ ~refuse
        \* all the names that the target has
        ts == {n \in DOMAIN d : SameFile(d, n, t)} \cup {t}
        become(r) == [k \in DOMAIN st \cup {Key(n) : n \in ts} |->
                         IF \E n \in ts : Key(n) = k THEN r ELSE st[k]]
        forget == [k \in DOMAIN st \ {Key(n) : n \in ts} |-> st[k]]
        changed == ~(t \in DOMAIN d /\ t \in DOMAIN f /\ SameListed(d[t], f[t]))
    IN  [v |->
           (IF refuse THEN Chk("C14.refused", e.rc # 0) ELSE {}) \cup
           (IF refuse /\ ~names /\ e.rc = 0 /\ s.is = "damaged" THEN {"C08.detected"} ELSE {}) \cup
           (IF refuse /\ ~names /\ e.rc = 0 /\ s.is = "truncated" THEN {"C09.refused"} ELSE {}) \cup
           (IF refuse /\ ~names /\ e.rc = 0 /\ s.is = "foreign" THEN {"C16.foreign"} ELSE {}) \cup
           (IF ~refuse /\ e.rc # 0 /\ MustDo(e, s) THEN {"C14.accepted", "C15.accepted"} ELSE {}) \cup
           Chk("C14.only_the_target", FrameKept(c, d, f, SameListed)) \cup
           Chk("C14.clobbered", NotClobbered(c, d, f, SameListed)) \cup
           (IF Untouching(c, d) \/ c.cmd \in {"info", "none"}
            THEN Chk("C14.touches_nothing", DOMAIN d = DOMAIN f /\ \A n \in DOMAIN d : SameListed(d[n], f[n]))
            ELSE {}) \cup
           (IF OntoItself(c, d) THEN Chk("C14.input_kept", ~changed) ELSE {}) \cup
           (IF c.cmd = "append" /\ e.rc # 0 /\ s.is = "good" THEN Chk("C06.untouched", ~changed) ELSE {}) \cup
           (IF ~did THEN {}
            ELSE CASE c.cmd = "compress" ->
                        CompressEffect(e) \cup Chk("C15.target", IsFile(f, t))
                   [] c.cmd = "decompress" ->
                        Chk("C15.target", IsFile(f, t)) \cup
                        (IF ~Stored(s) THEN {}
                         ELSE Chk("C15.content", e.odata = s.g) \cup
                              Chk("C15.metadata_printed", e.out.val = Shown(s.gm) /\ (s.gm = "null" \/ (e.out.pmeta <=> s.gm # ""))))
                   [] c.cmd = "append" -> IF s.is = "good" THEN AppendEffect(e, s) ELSE {}
                   [] c.cmd = "info" -> IF Describable(s) THEN InfoClauses(e, s) ELSE {}
                   [] OTHER -> {}) \cup
           (IF e.level = "normal" /\ e.rc = 0
            THEN Chk("C19.quiet", e.out.other = 0 /\ (c.cmd \in {"compress", "append"} => e.silent))
            ELSE {}),
         st |-> IF ~changed THEN st
                ELSE IF did /\ c.cmd = "compress"
                THEN become(Good(e.tpost, e.data, IF HasMeta(e) THEN e.m.val ELSE "", {}))
                ELSE IF did /\ c.cmd = "append" /\ s.is = "good"
                THEN become(Good(e.tpost, Cat(s.g, e.data), IF HasMeta(e) THEN e.m.val ELSE s.gm, s.hist \cup {"append"}))
                ELSE forget]

-----------------------------------------------------------------------------
(* Messages: a message appears when the level selected is at least its own *)

TalkStep(e) ==
    [v |-> Chk("C19.filtered", PartOf(e.lines.NORMAL, e.lines.VERBOSE) /\ PartOf(e.lines.VERBOSE, e.lines.DEBUG)) \cup
           Chk("C19.quiet_library", e.cli \/ e.lines.NORMAL = <<>> \/ Range(e.lines.NORMAL) = {0}),
     st |-> st]

LogStep(e) ==
    LET one(a, x) ==
            IF x.k = "set"
            THEN [level |-> IF IsLevel(x.lv) THEN x.lv ELSE a.level,
                  bad |-> a.bad \cup Chk("C19.levels", x.ok <=> IsLevel(x.lv))]
            ELSE IF x.k = "error"
            THEN [a EXCEPT !.bad = a.bad \cup Chk("C19.error", x.rc = x.code /\ x.printed = Said(e.prefix, "error: ", x.text))]
            ELSE IF ~IsLevel(x.lv)
            THEN [a EXCEPT !.bad = a.bad \cup Chk("C19.message_levels", ~x.ok /\ x.printed = <<>>)]
            ELSE [a EXCEPT !.bad = a.bad \cup
                    Chk("C19.takes_effect", x.ok /\ x.printed = IF Appears(x.lv, a.level) THEN Said(e.prefix, "", x.text) ELSE <<>>)]
        r == FoldLeft(one, [level |-> "NORMAL", bad |-> {}], e.xs)
    IN  [v |-> r.bad, st |-> st]

-----------------------------------------------------------------------------
(* Containers larger than 4 GB: zeros, but for what was appended.  Positions *)
(* are 64 bit integers; of the chunks we know how long they are (cts) and    *)
(* what they hold: nothing but zeros (z), or content (d)                     *)

HugePositions(o, c) ==
    FoldLeft(LAMBDA acc, x : Append(acc, Add64(acc[Len(acc)], Add64(x, FromInt(Digest(c.csum))))),
             <<FromInt(HeaderLen + o.mlen + TableLen(c))>>, o.cts)
HugeClauses(o) ==
    IF o.bad # "" THEN {"C03.sections"} ELSE
    LET c == HeaderOnly(o)
        pos == HugePositions(o, c)
    IN  Chk("C03.magic", HMagic(o.hdr) = Magic /\ HVersion(o.hdr) = Version /\ HOptions(o.hdr) \in 0..3) \cup
        Chk("C03.used_offsets", o.tab = IF c.offs THEN SubSeq(pos, 1, c.n) ELSE <<>>) \cup
        Chk("C03.reserved_offsets", o.resv = (IF c.offs THEN c.cap ELSE 0) /\ o.resvok) \cup
        Chk("C03.nothing_else", o.end = pos[c.n + 1]) \cup
        Chk("C03.digests", \A i \in DOMAIN o.last : o.last[i].dg)
HugePackStep(e) ==
    LET o == e.post
        c == HeaderOnly(o)
    IN  [v |-> IF ~e.ok THEN {"C01.accepted"}
               ELSE HugeClauses(o) \cup
                    (IF o.bad # "" THEN {}
                     ELSE Chk("C02.header", /\ c.chunk = e.unit /\ c.last = e.last /\ c.n = e.n
                                            /\ c.csum = e.req.csum /\ c.ts = e.req.ts
                                            /\ c.offs = e.req.offs /\ c.m.p = e.req.m
                                            /\ c.cap = Capacity(e.req.offs, e.req.cap)) \cup
                          Chk("C01.stored_content", /\ \A i \in 1..(e.n - 1) : o.last[i].z
                                                    /\ o.last[e.n].z \/ o.last[e.n].d = e.tail)),
         st |-> st]
HugeAppendStep(e) ==
    LET c == HeaderOnly(e.pre)
        d == HeaderOnly(e.post)
        len == Size(e.data)
        room == c.chunk - c.last
        k == IF len <= room THEN 0 ELSE CeilDiv(len - room, c.chunk)
        can == c.offs /\ k <= c.cap
        ret == IF e.ret = -1 THEN k ELSE e.ret
    IN  [v |-> IF e.pre.bad # "" THEN {}
               ELSE IF ~e.ok THEN (IF can THEN {"C05.accepted", "C23.accepted"} ELSE {}) \cup
                             Chk("C06.untouched", e.post.h = e.pre.h)
               ELSE (IF can THEN {} ELSE {"C23.refused", "C06.refused"}) \cup
                    HugeClauses(e.post) \cup
                    (IF ~can \/ e.post.bad # "" THEN {}
                     ELSE SlotClauses(c, k, d) \cup
                          Chk("C05.returns_new_chunks", ret = k) \cup
                          Chk("C05.metadata_bytes", e.post.m = e.pre.m) \cup
                          Chk("C02.append_keeps_header", /\ d.chunk = c.chunk /\ d.csum = c.csum
                                                         /\ d.ts = c.ts /\ d.offs = c.offs) \cup
                          Chk("C05.earlier_chunks", /\ SubSeq(e.post.cts, 1, c.n - 1) = SubSeq(e.pre.cts, 1, c.n - 1)
                                                    /\ SubSeq(e.post.last, 1, c.n - 1) = SubSeq(e.pre.last, 1, c.n - 1)) \cup
                          \* either the piece fits into the last chunk or that is full of zeros
                          Chk("C05.content", IF k = 0
                              THEN d.last = c.last + len /\ (e.pre.last[c.n].z \/ e.post.last[c.n].d = Cat(e.pre.last[c.n].d, e.data))
                              ELSE e.post.last[c.n].z /\ d.last = len /\ e.post.last[d.n].d = e.data)),
         st |-> st]

-----------------------------------------------------------------------------
(* The objects that hold arguments and header fields; they are kept under  *)
(* a name that no file has                                                 *)

ObjNames(k) ==
    CASE k = "blosc"      -> <<"typesize", "clevel", "shuffle", "cname">>
      [] k = "bloscpack"  -> <<"offsets", "checksum", "max_app_chunks">>
      [] k = "metadata"   -> <<"magic_format", "meta_checksum", "meta_codec", "meta_level", "max_meta_size">>
      [] k = "header"     -> <<"format_version", "offsets", "metadata", "checksum", "typesize", "chunk_size",
                               "last_chunk", "nchunks", "max_app_chunks">>
      [] k = "metaheader" -> <<"magic_format", "meta_options", "meta_checksum", "meta_codec", "meta_level",
                               "meta_size", "max_meta_size", "meta_comp_size", "user_codec">>
      [] OTHER -> <<>>
ObjDefaults(k) ==
    CASE k = "blosc"      -> <<"8", "7", "True", "'blosclz'">>
      [] k = "bloscpack"  -> <<"True", "'adler32'", "10*n+0">>
      [] k = "metadata"   -> <<"b'JSON'", "'adler32'", "'zlib'", "6", "10*n+0">>
      [] k = "header"     -> <<"3", "False", "False", "'None'", "0", "-1", "-1", "-1", "0">>
      [] k = "metaheader" -> <<"b''", "'00000000'", "'None'", "'None'", "0", "0", "0", "0", "b''">>
      [] OTHER -> <<>>
\* None stands for no checksum when arguments are constructed
ObjGiven(a) ==
    LET x(p) == IF a.act = "new" /\ a.k = "bloscpack" /\ p = 2 /\ a.g[p] = "None" THEN "'None'" ELSE a.g[p]
    IN  [p \in {q \in DOMAIN a.g : a.g[q] # ""} |-> x(p)]

ObjStep(e) ==
    LET old  == IF Known("#") THEN st["#"] ELSE <<>>
        use  == e.a.act = "use"
        act  == IF use THEN e.a ELSE [e.a EXCEPT !.g = ObjGiven(e.a)]
        may  == use \/ Allowed(ObjNames, old, act)
        new  == IF use \/ ~may THEN old ELSE After(ObjNames, ObjDefaults, old, act)
        seen1 == [i \in DOMAIN e.objs |-> [k |-> e.objs[i].k, v |-> e.objs[i].items]]
        total(f) == IF f.n = MinusOne64 THEN <<>> ELSE Add64(f.n, f.cap)
    IN  [v |-> (IF use THEN {} ELSE Chk(IF may THEN "C26.accepted" ELSE "C26.refused", e.ok = may)) \cup
               Chk("C26.unknown", (~may /\ act.act \in {"read", "lend", "wrong"}) => e.err = "KeyError") \cup
               Chk("C26.values", seen1 = new) \cup
               Chk("C26.returned", (e.ok /\ act.act \in {"read", "lend"}) => e.ret = old[act.i].v[act.j]) \cup
               Chk("C26.fields", \A i \in DOMAIN e.objs :
                       LET o == e.objs[i] IN o.names = ObjNames(o.k) /\ o.n = Len(o.names) /\ o.views /\ o.dict) \cup
               Chk("C26.attributes", \A i \in DOMAIN e.objs : e.objs[i].attrs = e.objs[i].items) \cup
               Chk("C26.printed", \A i \in DOMAIN e.objs : e.objs[i].printed) \cup
               Chk("C26.equality", seen1 = new =>
                       \A i, j \in DOMAIN new : e.eq[i][j] = Equal(ObjNames, new[i], new[j])) \cup
               Chk("C26.encoded", \A i \in DOMAIN e.enc :
                       LET x == e.enc[i]
                       IN  Valid(x.k, x.f) => /\ x.ok /\ x.out = Enc(x.k, x.f)
                                              /\ x.k = "bp" => x.total = total(x.f)),
         st |-> Put("#", IF seen1 = new THEN new ELSE seen1)]

-----------------------------------------------------------------------------
(* Sources and sinks of somebody else, see Protocol *)

DriveStep(e) ==
    LET r == [e.r EXCEPT !.bad = Range(@)]
        run == FoldLeft(LAMBDA s, c : IF s.ok /\ PR!Enabled(r, s.s, c) THEN [ok |-> TRUE, s |-> PR!After(r, s.s, c)]
                                      ELSE [ok |-> FALSE, s |-> s.s],
                        [ok |-> TRUE, s |-> PR!Start(r)], e.calls)
        before == FoldLeft(LAMBDA q, d : Append(q, Cat(q[Len(q)], d)), <<FpNil>>, e.parts)
        first == IF r.bad = {} THEN r.n + 1 ELSE CHOOSE i \in r.bad : \A j \in r.bad : i <= j
        req == Requested(e)
        pack == r.dir = "pack"
    IN  IF e.wrong # ""
        THEN [v |-> Chk("C27.types", ~e.ok /\ e.err = "TypeError" /\ e.calls = <<>>), st |-> st]
        ELSE [v |-> Chk("C27.order", run.ok) \cup
                    Chk("C27.complete", e.ok => PR!Complete(r, run.s)) \cup
                    Chk("C27.surfaces", e.fired => ~e.ok /\ e.surfaced) \cup
                    Chk("C27.accepted", ~e.fired /\ r.bad = {} => e.ok) \cup
                    Chk("C27.mismatch", r.bad # {} => ~e.ok /\ (e.fired \/ e.err = "ChecksumMismatch")) \cup
                    (IF pack
                     THEN Chk("C27.header", e.hdr # <<>> =>
                                 HeaderThere(e.hdr) /\ PackHeaderClauses(req, Size(e.data), HeaderOnly(e.hdr)) = {}) \cup
                          Chk("C27.container", e.ok /\ e.where = "file" =>
                                 /\ Conforming(e.post)
                                 /\ PackHeaderClauses(req, Size(e.data), Abs(e.post)) = {}
                                 /\ Content(Abs(e.post)) = e.data
                                 /\ (e.val # "") = HMeta(e.post.hdr)
                                 /\ e.val # "" => e.post.m.val = e.val) \cup
                          Chk("C27.memory", e.ok /\ e.where = "memory" =>
                                 /\ PackHeaderClauses(req, Size(e.data), Abs(e.post)) = {}
                                 /\ Content(Abs(e.post)) = e.data /\ e.mval = e.val
                                 /\ \A i \in 1..Len(e.post.ch) : e.post.ch[i].dg)
                     ELSE Chk("C27.content", IF e.ok THEN e.got = e.data
                                             ELSE \E k \in 1..Len(before) : k <= first /\ e.got = before[k])),
              st |-> IF ~pack \/ e.f = "" THEN st
                     ELSE IF e.ok /\ e.where # "" THEN Put(e.f, Good(e.post, e.data, e.val, {"driven"}))
                     ELSE Gone(e.f)]

-----------------------------------------------------------------------------
(* What verbose operations say, see Report                                  *)

ReportStep(e) ==
    LET pack == e.kind \in {"pack", "ndpack"}
        unpack == e.kind \in {"unpack", "ndunpack"}
        there == e.ok /\ Readable(e.post) /\ SmallEnough(e.post)
        c == Abs(e.post)
        o == Abs(e.old)
        before == Readable(e.old) /\ SmallEnough(e.old)
        fresh == c.n - o.n
        \* metadata as it is read
        mread == IF pack THEN [p |-> FALSE] ELSE IF before /\ HMeta(e.old.hdr)
                 THEN [p |-> TRUE, z |-> MCodec(e.old.m.mh) = 1, n |-> e.old.m.stored] ELSE [p |-> FALSE]
        True(x) ==
            CASE x.m \in {"input file size", "input bytes size"} ->
                    Shows(x.a, IF pack THEN e.plain ELSE e.before)
              [] x.m \in {"output file size", "output bytes size"} ->
                    e.ok => Shows(x.a, IF pack THEN e.after ELSE e.plain)
              [] x.m = "orig file size before append" -> Shows(x.a, e.before)
              [] x.m = "orig file size after append" -> e.ok => Shows(x.a, e.after)
              [] x.m = "new file size" -> Shows(x.a, e.plain)
              [] x.m = "compression ratio" -> e.ok => Ratio(x.r, e.plain, e.after)
              [] x.m = "decompression ratio" -> e.ok => Ratio(x.r, e.plain, e.before)
              [] x.m = "appended ratio" -> e.ok => e.after > e.before /\ Ratio(x.r, e.plain, e.after - e.before)
              [] x.m = "nchunks" -> there /\ (pack \/ before) => x.n = IF pack THEN c.n ELSE fresh
              [] x.m = "chunk_size" -> there => IF pack THEN Shows(x.a, c.chunk)
                                                ELSE Shows(x.a, c.chunk) \/ Shows(x.a, c.last)
              [] x.m = "last_chunk_size" -> there => Shows(x.a, c.last)
              [] x.m = "capacity" -> there /\ pack => x.n = c.cap
              [] x.m = "smaller" -> /\ e.req # -1 => Shows(x.a, e.req)
                                    /\ pack /\ e.plain # -1 => Shows(x.b, e.plain) /\ x.b.n < x.a.n
              [] x.m = "empty" -> pack => e.plain = 0
              [] x.m = "metadata section occupies a total of" -> there /\ pack =>
                    HMeta(e.post.hdr) /\ Shows(x.a, 32 + e.post.m.stored + e.post.m.padlen + DigestSizes[MChecksum(e.post.m.mh) + 1])
              [] x.m = "slack" -> there /\ pack => HMeta(e.post.hdr) /\ x.n = e.post.m.padlen
              [] x.m = "metadata" -> before => mread.p /\ x.n = mread.n /\ (x.s = "compressed") = mread.z
              [] x.m = "threads" -> e.nt # -1 => x.n = e.nt /\ (x.s = "threads") = (e.nt > 1)
              [] x.m = "input file" -> x.s = e.names["in"]
              [] x.m = "output file" -> x.s = e.names["out"]
              [] x.m = "original file" -> x.s = e.names["orig"]
              [] x.m = "new file" -> x.s = e.names["new"]
              [] x.m = "overwriting" -> e.over /\ x.s = e.names["out"]
              [] OTHER -> TRUE
        only(m) == SelectSeq(e.lines, LAMBDA x : x.m = m)
        has(ms) == e.ok => \A m \in ms : \E i \in DOMAIN e.lines : e.lines[i].m = m
        handled == only("handled")
        numbers == only("chunk")
        ofFile == e.entry \in {"f2f", "dep_f2f", "cmd"}
    IN  [v |-> Chk("C28.true", \A i \in DOMAIN e.lines : True(e.lines[i])) \cup
               Chk("C28.chunks", e.debug /\ there /\ (pack \/ unpack) =>
                       /\ Len(handled) = Len(e.post.ch)
                       /\ \A i \in DOMAIN handled :
                             LET x == handled[i] d == e.post.ch[i]
                             IN  IF pack THEN Shows(x.a, d.nb) /\ Shows(x.b, d.k) ELSE Shows(x.a, d.k) /\ Shows(x.b, d.nb)) \cup
               Chk("C28.numbers", e.debug /\ there /\ (e.kind = "append" => before) =>
                       LET n == IF e.kind = "append" THEN fresh ELSE c.n
                       IN  /\ pack \/ unpack \/ e.kind = "append" => Len(numbers) = n
                           /\ \A i \in DOMAIN numbers : numbers[i].n = i - 1 /\ (numbers[i].s # "") = (i = n)) \cup
               Chk("C28.said", CASE e.kind = "pack" ->
                                   (e.plain > 0 => has({"nchunks", "chunk_size", "last_chunk_size"})) /\
                                   (IF ofFile THEN has({"input file size", "output file size", "compression ratio"})
                                    ELSE IF e.entry \in {"b2f", "dep_b2f"}
                                    THEN has({"input bytes size", "output file size", "compression ratio"})
                                    ELSE e.entry = "b2b" => has({"input bytes size", "output bytes size", "compression ratio"}))
                                 [] e.kind = "ndpack" -> e.plain > 0 => has({"nchunks", "chunk_size", "last_chunk_size"})
                                 [] e.kind = "unpack" ->
                                   ofFile => has({"input file size", "output file size", "decompression ratio"})
                                 [] e.kind = "append" ->
                                   e.entry \in {"path", "cmd"} =>
                                      has({"orig file size before append", "orig file size after append", "new file size"})
                                 [] OTHER -> TRUE) \cup
               Chk("C28.files", e.entry = "cmd" =>
                       CASE e.kind \in {"pack", "unpack"} -> has({"input file", "output file"}) /\ (e.over => has({"overwriting"}))
                         [] e.kind = "append" -> has({"original file", "new file"})
                         [] OTHER -> TRUE),
         st |-> st]
SizesStep(e) ==
    [v |-> Chk("C28.size", \A i \in DOMAIN e.xs :
                   LET x == e.xs[i] IN Shows(x.a, x.n) /\ Shows(x.b, x.n) /\ x.a.n = -1 /\ x.b.n = x.n) \cup
           Chk("C28.back", \A i \in DOMAIN e.xs :
                   LET x == e.xs[i]
                       d == x.back - x.n
                       t == (Pow2(Units[x.a.u]) \div 200) + 1
                   IN  x.a.u \in DOMAIN Units => x.back >= 0 /\ d <= t /\ -d <= t),
     st |-> st]

-----------------------------------------------------------------------------
(* Metadata made of anything: of what JSON has, it is stored and comes back  *)
(* as it was; of anything else, it is refused, and nothing is harmed         *)

JsonKinds == {"null", "bool", "int", "float", "str", "list", "dict", "ordered"}
OddStep(e) ==
    LET json == \A k \in Range(e.kinds) : k \in JsonKinds
        clause(x) == IF e.entry = "replace" THEN "C07." \o x ELSE "C04." \o x
    IN  [v |-> Chk(clause("stored"), json => e.ok) \cup
               Chk(clause("intact"), e.ok => e.alike) \cup
               Chk(clause("unserialisable"), e.ok => json) \cup
               Chk("C06.unserialisable", e.entry = "replace" /\ ~e.ok => e.held = "same"),
         st |-> st]

-----------------------------------------------------------------------------
(* Settings that are mappings, changed in between (see Reuse): what counts   *)
(* is what they are when they are used.  own: the mapping is left alone      *)

SettingNames == {"typesize", "clevel", "shuffle", "cname"}
ReuseStep(e) ==
    LET start == [o \in {1, 2} |-> [k \in SettingNames \cup {"other"} |-> IF k = "other" THEN "absent" ELSE "good"]]
        usable(m) == m["other"] = "absent" /\ \A k \in SettingNames : m[k] \in {"none", "good"}
        one(a, s) == IF s.act = "set" THEN [a EXCEPT !.m[s.o][s.k] = s.v]
                     ELSE [a EXCEPT !.v = @ \cup (IF usable(a.m[s.o]) THEN Chk("C05.accepted", s.ok)
                                                  ELSE Chk("C06.refused", ~s.ok)) \cup
                                          Chk(IF s.ok THEN "C05.content" ELSE "C06.untouched", s.held) \cup
                                          Chk("C18.arguments_unchanged", s.own) \cup
                                          Chk("C18.by_arguments", s.ok = usable(a.m[s.o]))]
    IN  [v |-> FoldLeft(one, [m |-> start, v |-> {}], e.steps).v, st |-> st]

-----------------------------------------------------------------------------
(* What an operation left behind (see Leave), looked at while the caller has *)
(* the error.  left: files it opened and did not close; files: that came or  *)
(* went, except the output; whole: all of the output was there at once       *)

LeaveStep(e) ==
    LET sure == e.fate \in {"absent", "refused"} \/ e.fired
    IN  [v |-> Chk("C32.closed", e.left = 0) \cup
               Chk("C32.callers_open", e.theirs) \cup
               Chk("C32.no_other_file", e.files = 0) \cup
               Chk("C32.settings", e.changed = <<>>) \cup
               Chk("C32.inputs", e.inputs) \cup
               Chk("C32.whole", e.whole) \cup
               Chk("C32.surfaces", e.ok = ~sure),
         st |-> st]

-----------------------------------------------------------------------------
Step(e) ==
    CASE e.op = "begin"   -> [v |-> {}, st |-> <<>>]
      [] e.op = "pack"    -> PackStep(e)
      [] e.op = "mempack" -> MemPackStep(e)
      [] e.op = "unpack"  -> UnpackStep(e)
      [] e.op = "append"  -> AppendStep(e)
      [] e.op = "rewrite" -> RewriteStep(e)
      [] e.op = "damage"  -> DamageStep(e)
      [] e.op = "trunc"   -> TruncStep(e)
      [] e.op = "memhurt" -> MemHurtStep(e)
      [] e.op = "sethdr"  -> SetHeaderStep(e)
      [] e.op = "headers" -> [v |-> HeaderClauses(e.xs), st |-> st]
      [] e.op = "dom"     -> DomStep(e)
      [] e.op = "chunking" -> ChunkingStep(e)
      [] e.op = "capacity" -> CapacityStep(e)
      [] e.op = "ndpack"  -> NdPackStep(e)
      [] e.op = "ndunpack" -> NdUnpackStep(e)
      [] e.op = "copy"    -> CopyStep(e)
      [] e.op = "compose" -> ComposeStep(e)
      [] e.op = "cmd"     -> CmdStep(e)
      [] e.op = "file"    -> FileStep(e)
      [] e.op = "crash"   -> CrashStep(e)
      [] e.op = "deliver" -> DeliverStep(e)
      [] e.op = "hostile" -> HostileStep(e)
      [] e.op = "replaced" -> ReplacedStep(e)
      [] e.op = "io"      -> IoStep(e)
      [] e.op = "iochunks" -> IoChunksStep(e)
      [] e.op = "hugepack" -> HugePackStep(e)
      [] e.op = "hugeappend" -> HugeAppendStep(e)
      [] e.op = "par"     -> [v |-> {}, st |-> st]
      [] e.op = "disturb" -> [v |-> {}, st |-> st]
      [] e.op = "talk"    -> TalkStep(e)
      [] e.op = "log"     -> LogStep(e)
      [] e.op = "obj"     -> ObjStep(e)
      [] e.op = "drive"   -> DriveStep(e)
      [] e.op = "report"  -> ReportStep(e)
      [] e.op = "sizes"   -> SizesStep(e)
      [] e.op = "odd"     -> OddStep(e)
      [] e.op = "leave"   -> LeaveStep(e)
      [] e.op = "reuse"   -> ReuseStep(e)
      [] e.op = "died"    -> [v |-> {}, st |-> st]
      [] OTHER            -> [v |-> {"X.unknown_event"}, st |-> st]

\* whatever goes wrong with a container that somebody else wrote
OfComposed(e, v) ==
    LET f == CASE e.op \in {"unpack", "append", "rewrite", "ndunpack"} -> e.f
               [] e.op = "cmd" -> Key(e.c.in)
               [] OTHER -> ""
    IN  IF v # {} /\ Known(f) /\ Composed(st[f]) THEN {"C25." \o e.op} ELSE {}

\* outcomes that must be equal whenever their keys are
SameClauses(e) ==
    IF e.op = "begin" \/ e.key = "" \/ e.key \notin DOMAIN seen THEN {}
    ELSE Chk(e.tag, seen[e.key] = e.oh)
NextSeen(e) ==
    IF e.op = "begin" THEN <<>>
    ELSE IF e.key = "" \/ e.key \in DOMAIN seen THEN seen
    ELSE [k \in DOMAIN seen \cup {e.key} |-> IF k = e.key THEN e.oh ELSE seen[k]]

Common(e) ==
    IF e.op = "begin" THEN {}
    ELSE Chk("C18.arguments_unchanged", e.same) \cup
         Chk("X.died", e.err # "died") \cup
         Chk("X.harness", e.err # "harness")

TraceInit == l = 1 /\ st = <<>> /\ seen = <<>>

TraceNext ==
    /\ l <= Len(TraceLog)
    /\ LET e == TraceLog[l]
           r == Step(e)
           v == r.v \cup OfComposed(e, r.v) \cup SameClauses(e) \cup Common(e)
       IN  /\ l' = l + 1
           /\ st' = r.st
           /\ seen' = NextSeen(e)
           /\ IF v = {} THEN TRUE
              ELSE TLCSet(1, Append(TLCGet(1), [line |-> l, clauses |-> v]))

TraceSpec == TraceInit /\ [][TraceNext]_vars

ASSUME TLCSet(1, <<>>)

\* the whole trace was consumed, and the verdict is written out
Verdict ==
    /\ ndJsonSerialize(IOEnv.VERDICT, TLCGet(1))
    /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
