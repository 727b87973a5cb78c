------------------------------- MODULE Replace -------------------------------
(***************************************************************************)
(* The metadata section while it is being replaced in place, and what a    *)
(* reader makes of it when not all of it got written.                      *)
(*                                                                         *)
(* A section is a row of cells: the checksum, the codec, the length of     *)
(* what is stored, what is stored (with zeros after it), and the digest,   *)
(* in two parts.  A value is a sequence over 1..Letters; the codec 1       *)
(* stores a run of one letter as <<9, letter, length>>.                    *)
(* Any cells may be those that were written when power failed              *)
(* (Unordered), or the first ones.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Letters, Unordered, Checked, Emits

Room == IF MaxLen > 3 THEN MaxLen ELSE 3
Values == UNION {[1..n -> 1..Letters] : n \in 1..MaxLen}
Run(v) == \A i \in DOMAIN v : v[i] = v[1]
\* compressed only where asked for and of use
Stored(v, k) == IF k = 1 /\ Run(v) /\ Len(v) >= 3 THEN <<9, v[1], Len(v)>> ELSE v
Codec(v, k) == IF k = 1 /\ Run(v) /\ Len(v) >= 3 THEN 1 ELSE 0
Zeros(s) == [i \in 1..Room |-> IF i <= Len(s) THEN s[i] ELSE 0]
\* whoever has the digest of some bytes, has those bytes
Digest(c, s, part) == <<c, s, part>>

Cells == {"csum", "codec", "len"} \cup (1..Room) \cup {"d1", "d2"}
Section(v, k, c) ==
    LET s == Stored(v, k)
    IN  [csum |-> c, codec |-> Codec(v, k), len |-> Len(s), pay |-> Zeros(s),
         d1 |-> Digest(c, s, 1), d2 |-> Digest(c, s, 2)]

\* what a reader gets: [ok, v]
Nothing == [ok |-> FALSE, v |-> <<>>]
Decoded(codec, s) ==
    IF codec = 1 THEN IF Len(s) = 3 /\ s[1] = 9 THEN [ok |-> TRUE, v |-> [i \in 1..s[3] |-> s[2]]] ELSE Nothing
    ELSE IF \E i \in DOMAIN s : s[i] \notin 1..Letters THEN Nothing ELSE [ok |-> TRUE, v |-> s]
Read(x, checked) ==
    LET s == SubSeq(x.pay, 1, x.len)
    IN  IF checked /\ (x.d1 # Digest(x.csum, s, 1) \/ x.d2 # Digest(x.csum, s, 2)) THEN Nothing
        ELSE Decoded(x.codec, s)

VARIABLES sec, old, new, left, was, now

Write(x, y, c) ==
    CASE c = "csum"  -> [x EXCEPT !.csum = y.csum]
      [] c = "codec" -> [x EXCEPT !.codec = y.codec]
      [] c = "len"   -> [x EXCEPT !.len = y.len]
      [] c = "d1"    -> [x EXCEPT !.d1 = y.d1]
      [] c = "d2"    -> [x EXCEPT !.d2 = y.d2]
      [] OTHER       -> x

Order == <<"csum", "codec", "len", "pay", "d1", "d2">>
\* cells of what is stored are written one by one: left counts them
Init == \E v, w \in Values, k, l \in {0, 1}, c, d \in {1, 2} :
            /\ v # w
            /\ was = [v |-> v, k |-> k, c |-> c] /\ now = [v |-> w, k |-> l, c |-> d]
            /\ old = Section(v, k, c) /\ new = Section(w, l, d) /\ sec = old
            /\ left = {<<o, 0>> : o \in {"csum", "codec", "len", "d1", "d2"}} \cup {<<"pay", i>> : i \in 1..Room}

At(c) == CHOOSE i \in DOMAIN Order : Order[i] = c
Before(a, b) == At(a[1]) < At(b[1]) \/ (a[1] = b[1] /\ a[2] < b[2])
Next == \E x \in left :
            /\ Unordered \/ \A y \in left : y = x \/ Before(x, y)
            /\ sec' = IF x[1] = "pay" THEN [sec EXCEPT !.pay[x[2]] = new.pay[x[2]]] ELSE Write(sec, new, x[1])
            /\ left' = left \ {x}
            /\ UNCHANGED <<old, new, was, now>>
Spec == Init /\ [][Next]_<<sec, old, new, left, was, now>>

\* never anything but the one or the other
Harmless == LET r == Read(sec, Checked) IN r.ok => r.v \in {was.v, now.v}
Complete == left = {} => Read(sec, TRUE) = [ok |-> TRUE, v |-> now.v] /\ sec = new
Begun == sec = old => Read(sec, TRUE) = [ok |-> TRUE, v |-> was.v]
\* as soon as the new value can be read, all that matters has been written
Emit == Emits /\ left = {} => PrintT("@H " \o ToJson([was |-> was, now |-> now]))
=============================================================================
