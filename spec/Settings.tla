------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* Compression settings: the settings that an operation is given, those    *)
(* that it uses, and what the header of a chunk shows of them.             *)
(*                                                                         *)
(* Settings are records [ts: typesize, lv: level, sh: 0 no shuffle, 1 byte *)
(* shuffle, 2 bit shuffle, cn: codec].  What is not given is -1, or "" for *)
(* the codec.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

NotGiven == [ts |-> -1, lv |-> -1, sh |-> -1, cn |-> ""]

\* ts: the typesize when none is given: 8 when packing, that of the container
\* when appending, the item size of an array
Fill(z, ts) ==
    [ts |-> IF z.ts = -1 THEN ts ELSE z.ts,
     lv |-> IF z.lv = -1 THEN 7 ELSE z.lv,
     sh |-> IF z.sh = -1 THEN 1 ELSE z.sh,
     cn |-> IF z.cn = "" THEN "blosclz" ELSE z.cn]

Codecs == {"blosclz", "lz4", "lz4hc", "snappy", "zlib", "zstd"}
\* the number of the format that a codec writes
FormatOf(cn) == CASE cn = "blosclz" -> 0 [] cn \in {"lz4", "lz4hc"} -> 1 [] cn = "snappy" -> 2
                  [] cn = "zlib" -> 3 [] cn = "zstd" -> 4 [] OTHER -> 7

\* level 0 stores, and so does every level if there is little
Stores(z, size) == z.lv = 0 \/ size < 128

FlagBit(b, k) == (b \div k) % 2
\* x: the header of a chunk [bts, fl, nb]
ShownBy(z, x) ==
    /\ x.bts = z.ts
    /\ FlagBit(x.fl, 1) = (IF z.sh = 1 THEN 1 ELSE 0)
    /\ FlagBit(x.fl, 4) = (IF z.sh = 2 THEN 1 ELSE 0)
    /\ Stores(z, x.nb) => FlagBit(x.fl, 2) = 1
    /\ x.fl \div 32 = FormatOf(z.cn)
=============================================================================
