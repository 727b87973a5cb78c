------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings and the little-endian integers stored in them.             *)
(*                                                                         *)
(* TLC's integers have 32 bits, the format's have up to 64.  A 64 bit      *)
(* two's complement integer is represented by its eight bytes, least       *)
(* significant first ("I64" below), exactly as the format stores it; the   *)
(* operators here give it order, addition, subtraction, multiplication by  *)
(* a 31 bit natural, and conversions.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

IsBytes(b)   == \A i \in DOMAIN b : b[i] \in 0..255
Slice(b, from, len) == SubSeq(b, from + 1, from + len)   \* 0-based position

\* signed 32 bit integer at 0-based position p
I32(b, p) == b[p+1] + 256 * b[p+2] + 65536 * b[p+3]
             + 16777216 * (IF b[p+4] >= 128 THEN b[p+4] - 256 ELSE b[p+4])

\* unsigned 32 bit integer at position p, as an I64
U32(b, p) == <<b[p+1], b[p+2], b[p+3], b[p+4], 0, 0, 0, 0>>
I64(b, p) == Slice(b, p, 8)

Pow256 == <<1, 256, 65536, 16777216>>

\* the bytes of an Int
Enc32(n) == IF n >= 0
            THEN [i \in 1..4 |-> (n \div Pow256[i]) % 256]
            ELSE [i \in 1..4 |-> 255 - (((-(n+1)) \div Pow256[i]) % 256)]
FromInt(n) == Enc32(n) \o (IF n >= 0 THEN <<0,0,0,0>> ELSE <<255,255,255,255>>)

Zero64 == FromInt(0)
One64  == FromInt(1)
MinusOne64 == FromInt(-1)
Max64  == <<255,255,255,255,255,255,255,127>>

Neg64(x) == x[8] >= 128

\* unsigned comparison, most significant byte first
ULess(a, b) == \E i \in 1..8 : /\ a[i] < b[i]
                               /\ \A j \in (i+1)..8 : a[j] = b[j]
Less64(a, b) == IF Neg64(a) # Neg64(b) THEN Neg64(a) ELSE ULess(a, b)
Leq64(a, b)  == a = b \/ Less64(a, b)

\* the digits of a sum of columns f(1..n), least significant first
Digits(f(_), n, c0) ==
    LET step(acc, i) == LET v == f(i) + acc[1] IN << v \div 256, Append(acc[2], v % 256) >>
    IN  FoldLeft(step, <<c0, <<>>>>, [i \in 1..n |-> i])[2]
AddCarry(a, b, c0) == LET col(i) == a[i] + b[i] IN Digits(col, 8, c0)
Add64(a, b) == AddCarry(a, b, 0)                       \* modulo 2^64
Not64(a)    == [i \in 1..8 |-> 255 - a[i]]
Sub64(a, b) == AddCarry(a, Not64(b), 1)
\* sum of two non-negative I64 exceeds 2^63-1
AddOverflows(a, b) == Neg64(Add64(a, b))

\* product of a non-negative I64 and a natural number, as twelve bytes
Mul64(a, n) ==
    LET m == Enc32(n)
        col(k) == LET t(j) == IF k - j + 1 \in 1..8 THEN a[k - j + 1] * m[j] ELSE 0
                  IN t(1) + t(2) + t(3) + t(4)
    IN  Digits(col, 12, 0)
Add12(a, b) == LET col(i) == a[i] + b[i] IN Digits(col, 12, 0)

Fits31(x) == x[5] = 0 /\ x[6] = 0 /\ x[7] = 0 /\ x[8] = 0 /\ x[4] < 128
ToInt(x)  == x[1] + 256 * x[2] + 65536 * x[3] + 16777216 * x[4]

AllZero(b) == \A i \in DOMAIN b : b[i] = 0
\* bytes up to trailing zero padding
RECURSIVE RStrip(_)
RStrip(b) == IF b = <<>> \/ b[Len(b)] # 0 THEN b ELSE RStrip(SubSeq(b, 1, Len(b) - 1))
PadTo(b, n) == b \o [i \in 1..(n - Len(b)) |-> 0]

Lesser(a, b) == IF a <= b THEN a ELSE b
Greater(a, b) == IF a >= b THEN a ELSE b
=============================================================================
