------------------------------- MODULE Domain -------------------------------
(***************************************************************************)
(* The domains of the parameters of a pack.  A value is a record           *)
(*   t    "int", "big+" and "big-" (integers beyond 64 bits), "size" (a    *)
(*        human readable size num/den times its suffix), "name" or "other" *)
(*        (another type, or text that is not a size)                       *)
(*   n    the eight bytes of an int;  s  the name, or what it is           *)
(*   num, den, suf                    of a size                            *)
(*   fn   whether it is returned by a function that is given instead       *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets

CNames   == {"blosclz", "lz4", "lz4hc", "zlib", "zstd"}
SumNames == {"None", "adler32", "crc32", "md5", "sha1", "sha224", "sha256", "sha384", "sha512"}
MetaCodecNames == {"None", "zlib"}
MetaFormats    == {"JSON"}
Params     == {"cs", "ts", "clevel", "cname", "csum", "cap", "mcodec", "mfmt", "mcsum", "mlevel", "mmax"}
MetaParams == {"mcodec", "mfmt", "mcsum", "mlevel", "mmax"}

\* 12 byte products, compared from the most significant byte
ULeq12(a, b) == \/ a = b
                \/ \E i \in 1..12 : a[i] < b[i] /\ \A j \in (i+1)..12 : a[j] = b[j]
Suffix == [B |-> <<1, 1>>, K |-> <<1, 1024>>, M |-> <<1, 1048576>>,
           G |-> <<1, 1073741824>>, T |-> <<1024, 1073741824>>]
SizeInRange(num, den, suf) ==      \* 1 <= floor(num/den * suffix) <= the largest buffer
    /\ num > 0
    /\ LET p == Mul64(FromInt(num * Suffix[suf][1]), Suffix[suf][2])
       IN  /\ ULeq12(Mul64(FromInt(den), 1), p)
           /\ ~ULeq12(Mul64(FromInt(2147483632), den), p)

IntIn(x, lo, hi) == x.t = "int" /\ Leq64(FromInt(lo), x.n) /\ Leq64(x.n, hi)
U32Max == <<255, 255, 255, 255, 0, 0, 0, 0>>

InDomain(p, x) ==
    CASE p = "cs"     -> \/ IntIn(x, 1, FromInt(2147483631))
                         \/ x.t = "size" /\ SizeInRange(x.num, x.den, x.suf)
      [] p = "ts"     -> IntIn(x, 1, FromInt(255))
      [] p = "clevel" -> IntIn(x, 0, FromInt(9))
      [] p = "cname"  -> x.t = "name" /\ x.s \in CNames
      [] p = "csum"   -> (x.t = "name" /\ x.s \in SumNames) \/ (x.t = "other" /\ x.s = "none")
      [] p = "cap"    -> IntIn(x, 0, Max64) \/ (x.fn /\ x.t = "big+")
      [] p = "mcodec" -> x.t = "name" /\ x.s \in MetaCodecNames
      [] p = "mfmt"   -> x.t = "name" /\ x.s \in MetaFormats
      [] p = "mcsum"  -> x.t = "name" /\ x.s \in SumNames
      [] p = "mlevel" -> IntIn(x, 0, FromInt(9))
      [] p = "mmax"   -> IntIn(x, 0, U32Max)

\* a parameter that is not used is not looked at; nd: packing an array sets
\* the typesize itself; mem: metadata is kept as it is
Relevant(p, r) ==
    /\ p = "cs" => r.len > 0
    /\ p = "ts" => ~r.nd
    /\ p = "cap" => r.offs
    /\ p \in MetaParams => r.meta /\ ~r.mem
Acceptable(ps, r) == \A p \in DOMAIN ps : Relevant(p, r) => InDomain(p, ps[p])
\* refusing an unused parameter is as good as ignoring it
MustAccept(ps, r) == \A p \in DOMAIN ps : InDomain(p, ps[p])

\* the number of chunks must fit 64 bits (len: twelve bytes)
TooMany(len, chunk) == ~ULeq12(len, Mul64(Max64, chunk))
=============================================================================
