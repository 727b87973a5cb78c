------------------------------- MODULE Header -------------------------------
(***************************************************************************)
(* The 32 byte container header and the 32 byte metadata header: which     *)
(* field values are valid, how they are encoded and what decoding accepts. *)
(* Numbers are given as the eight bytes of a 64 bit integer (see Bytes).   *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets

HChk(name, holds) == IF holds THEN {} ELSE {name}

HdrMagic    == <<98, 108, 112, 107>>                      \* "blpk"
MaxBuf64    == FromInt(2147483631)
MaxU32      == <<255, 255, 255, 255, 0, 0, 0, 0>>
In64(lo, x, hi) == Leq64(lo, x) /\ Leq64(x, hi)
Bit(v, k)   == (v \div (2^k)) % 2 = 1

-----------------------------------------------------------------------------
(* Container header: [ver, offs, meta, csum, ts, chunk, last, n, cap]      *)

ValidHeader(f) ==
    /\ In64(Zero64, f.ver, FromInt(255))
    /\ f.csum \in 0..8
    /\ In64(Zero64, f.ts, FromInt(255))
    /\ In64(MinusOne64, f.chunk, MaxBuf64)
    /\ In64(MinusOne64, f.last, MaxBuf64)
    /\ Leq64(MinusOne64, f.n)
    /\ Leq64(Zero64, f.cap)
    /\ IF f.n = MinusOne64 THEN f.cap = Zero64 ELSE ~AddOverflows(f.n, f.cap)
    /\ f.chunk # MinusOne64 /\ f.last # MinusOne64 => Leq64(f.last, f.chunk)

EncHeader(f) ==
    HdrMagic \o << f.ver[1],
                   (IF f.offs THEN 1 ELSE 0) + (IF f.meta THEN 2 ELSE 0),
                   f.csum, f.ts[1] >>
    \o Slice(f.chunk, 0, 4) \o Slice(f.last, 0, 4) \o f.n \o f.cap

\* sign extension of the four bytes at position p
S32(b, p) == Slice(b, p, 4) \o (IF b[p+4] >= 128 THEN <<255,255,255,255>> ELSE <<0,0,0,0>>)
U8(v) == <<v, 0, 0, 0, 0, 0, 0, 0>>

FieldsOf(b) ==
    [ver |-> U8(b[5]), offs |-> Bit(b[6], 0), meta |-> Bit(b[6], 1), csum |-> b[7],
     ts |-> U8(b[8]), chunk |-> S32(b, 8), last |-> S32(b, 12), n |-> I64(b, 16), cap |-> I64(b, 24)]

DecodableHeader(b) ==
    /\ Len(b) = 32
    /\ Slice(b, 0, 4) = HdrMagic
    /\ b[6] < 4                                   \* reserved option bits
    /\ ValidHeader(FieldsOf(b))

-----------------------------------------------------------------------------
(* Metadata header: [magic, opts, csum, codec, level, raw, max, comp, user] *)

ValidMeta(f) ==
    /\ Len(f.magic) <= 8 /\ Len(f.user) <= 8
    /\ f.opts \in 0..255
    /\ f.csum \in 0..8
    /\ f.codec \in 0..1
    /\ In64(Zero64, f.level, FromInt(9))
    /\ In64(Zero64, f.raw, MaxU32) /\ In64(Zero64, f.max, MaxU32) /\ In64(Zero64, f.comp, MaxU32)

EncMeta(f) ==
    PadTo(f.magic, 8) \o <<f.opts, f.csum, f.codec, f.level[1]>>
    \o Slice(f.raw, 0, 4) \o Slice(f.max, 0, 4) \o Slice(f.comp, 0, 4) \o PadTo(f.user, 8)

MetaFieldsOf(b) ==
    [magic |-> RStrip(Slice(b, 0, 8)), opts |-> b[9], csum |-> b[10], codec |-> b[11],
     level |-> U8(b[12]), raw |-> U32(b, 12), max |-> U32(b, 16), comp |-> U32(b, 20),
     user |-> RStrip(Slice(b, 24, 8))]

DecodableMeta(b) == Len(b) = 32 /\ ValidMeta(MetaFieldsOf(b))

-----------------------------------------------------------------------------
(* What must hold of an encoding or decoding that was observed             *)

Valid(k, f)     == IF k = "bp" THEN ValidHeader(f) ELSE ValidMeta(f)
Enc(k, f)       == IF k = "bp" THEN EncHeader(f) ELSE EncMeta(f)
Decodable(k, b) == IF k = "bp" THEN DecodableHeader(b) ELSE DecodableMeta(b)
Fields(k, b)    == IF k = "bp" THEN FieldsOf(b) ELSE MetaFieldsOf(b)

\* the fields as decoding returns them: padding is not part of them
Normal(k, f) == IF k = "bp" THEN f
                ELSE [f EXCEPT !.magic = RStrip(f.magic), !.user = RStrip(f.user)]

\* x: fields that were given (bad: some value of a wrong type or beyond 64
\* bits or an unknown name), whether it succeeded, the bytes, and the fields
\* that decoding those gave
EncodeClauses(x) ==
    LET good == ~x.bad /\ Valid(x.k, x.f)
    IN  IF ~good THEN HChk("C16.refuses_fields", ~x.ok)
        ELSE IF ~x.ok THEN {"C16.accepts_fields"}
        ELSE HChk("C16.layout", x.out = Enc(x.k, x.f)) \cup
             HChk("C16.inverse", x.back = Normal(x.k, x.f))
\* x: bytes, whether they were accepted, the fields, and their encoding
DecodeClauses(x) ==
    LET good == Decodable(x.k, x.b)
    IN  IF ~good THEN HChk("C16.refuses_bytes", ~x.ok)
        ELSE IF ~x.ok THEN {"C16.accepts_bytes"}
        ELSE HChk("C16.fields", x.f = Fields(x.k, x.b)) \cup
             HChk("C16.reencodes", x.out = x.b)
HeaderClauses(xs) ==
    UNION { IF xs[i].t = "enc" THEN EncodeClauses(xs[i]) ELSE DecodeClauses(xs[i]) : i \in DOMAIN xs }
=============================================================================
