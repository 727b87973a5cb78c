------------------------------ MODULE DomainMC ------------------------------
(***************************************************************************)
(* Every choice of at most Depth parameters at the edges of their domains, *)
(* inside and outside, printed to be tried.                                *)
(***************************************************************************)
EXTENDS Domain, TLC, Json
CONSTANT Depth

V == [t |-> "other", n |-> Zero64, s |-> "", num |-> 0, den |-> 1, suf |-> "B", fn |-> FALSE]
I(i)    == [V EXCEPT !.t = "int", !.n = FromInt(i)]
I64v(b) == [V EXCEPT !.t = "int", !.n = b]
Name(s) == [V EXCEPT !.t = "name", !.s = s]
Other(s) == [V EXCEPT !.s = s]
Sz(a, b, c) == [V EXCEPT !.t = "size", !.num = a, !.den = b, !.suf = c]
Fn(x)   == [x EXCEPT !.fn = TRUE]
BigP == [V EXCEPT !.t = "big+"]
BigN == [V EXCEPT !.t = "big-"]
Two32v == <<0, 0, 0, 0, 1, 0, 0, 0>>
Edge(lo, hi) == {I(lo - 1), I(lo), I(hi), I(hi + 1), BigP, BigN, I64v(Two32v), I64v(Max64)}
Types == {Other("none"), Other("float"), Other("str"), Other("list")}

Values == [
  cs |-> Edge(1, 2147483631) \cup {I(-2147483647), Other("none"), Other("float"), Other("list"), Other("bytes"), Other("nan"), Other("inf"),
          Other("empty"), Other("K"), Other("abc"), Other("1X"), Other("1"), Other("1.5"), Other("K1"), Other("1KK"),
          Other("-1K"), Other("1k"), Other("-0.5K"),
          Sz(0, 1, "K"), Sz(0, 1, "B"), Sz(5, 10, "B"), Sz(1, 1, "B"), Sz(1, 1, "K"), Sz(15, 10, "K"), Sz(1, 10000, "K"), Sz(1, 1000, "K"),
          Sz(1, 1, "G"), Sz(19999999, 10000000, "G"), Sz(2, 1, "G"), Sz(1, 1, "T"), Sz(2, 1, "T"), Sz(1999, 1000000, "T"), Sz(2, 1000, "T"), Sz(1, 1000, "T"),
          Sz(4, 1, "G"), Sz(4, 1, "T"), Sz(2147483, 1, "K"), Sz(2047, 1, "M"), Sz(2048, 1, "M")},
  ts |-> Edge(1, 255) \cup Types,
  clevel |-> Edge(0, 9) \cup Types,
  cname |-> {Name(x) : x \in CNames \cup {"nope", "", "LZ4", "snappy", "zstd ", "blosc"}} \cup {Other("none"), Other("bytes"), Other("float")},
  csum |-> {Name(x) : x \in SumNames \cup {"nope", "", "ADLER32", "md4", "none", "sha3"}} \cup {Other("none"), Other("bytes"), Other("float")},
  cap |-> {I(-1), I(0), I(1), BigN, Other("none"), Other("float"), Other("str"), Other("list")} \cup
          {Fn(x) : x \in {I(-1), I(0), I(3), BigN, Other("none"), Other("float"), Other("str")}},
  mcodec |-> {Name(x) : x \in MetaCodecNames \cup {"nope", "", "ZLIB", "gzip"}} \cup {Other("none"), Other("bytes")},
  mfmt |-> {Name(x) : x \in MetaFormats \cup {"XML", "", "json", "JSON2", "PICKLE"}} \cup {Other("none"), Other("str")},
  mcsum |-> {Name(x) : x \in SumNames \cup {"nope", "", "ADLER32"}} \cup {Other("none"), Other("bytes")},
  mlevel |-> Edge(0, 9) \cup {Other("none"), Other("float"), Other("str")},
  mmax |-> {I(-1), I(5000), I(900), I64v(Two32v), I64v(Max64), BigP, BigN, Other("none"), Other("float"), Other("str")} \cup
           {Fn(x) : x \in {I(-1), I(5000), I64v(Two32v), BigP, Other("none"), Other("float")}}]

VARIABLES ps
Init == ps = << >>
Set(p, x) == ps' = [q \in DOMAIN ps \cup {p} |-> IF q = p THEN x ELSE ps[q]]
Next == /\ Cardinality(DOMAIN ps) < Depth
        /\ \E p \in Params \ DOMAIN ps : \E x \in Values[p] : Set(p, x)
Spec == Init /\ [][Next]_ps

Some == [len |-> 1, offs |-> TRUE, meta |-> TRUE, nd |-> FALSE, mem |-> FALSE]
\* adding an out of domain value never makes a choice acceptable
Monotone == [][Acceptable(ps', Some) => Acceptable(ps, Some)]_ps
\* 1 <= floor(num / den * suffix): against plain arithmetic where that fits
SizesRight == \A num \in 0..40 : \A den \in {1, 2, 10, 100} : \A suf \in {"B", "K", "M"} :
                 SizeInRange(num, den, suf) <=>
                     (num * Suffix[suf][1] * Suffix[suf][2]) \div den >= 1
TooManyRight == \A c \in {1, 2, 255, 65536, 2147483631} : \A d \in {0, 1} :
                 LET m == Mul64(Max64, c)      \* the largest length with chunk c
                     up == [m EXCEPT ![1] = (m[1] + d) % 256, ![2] = IF m[1] + d > 255 THEN m[2] + 1 ELSE m[2]]
                 IN  m[2] < 255 => (TooMany(up, c) <=> d = 1)
ASSUME SizesRight /\ TooManyRight
Emit == PrintT("@H " \o ToJson(ps'))
=============================================================================
