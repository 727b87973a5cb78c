------------------------------ MODULE HeaderMC ------------------------------
(***************************************************************************)
(* Encoding and decoding are inverse, on boundary values of every field    *)
(* and on every corruption of one byte to a boundary value.  A state is a  *)
(* header; actions set one field, or one byte.  Every header reached is    *)
(* printed, to be given to the implementation.                             *)
(***************************************************************************)
EXTENDS Header, TLC, Json

CONSTANTS Depth, Kinds

VARIABLES k, f, b, d
vars == <<k, f, b, d>>

N32   == {-1, 0, 1, 255, 256, 2147483631}
Bad32 == {-2, 2147483632, 2147483647}
Two32 == <<0, 0, 0, 0, 1, 0, 0, 0>>
N64   == {FromInt(i) : i \in N32 \cup Bad32} \cup {Two32, Max64, Sub64(Max64, One64), MaxU32,
          <<0, 0, 0, 0, 0, 0, 0, 128>>}

BpValues == [ver |-> {U8(v) : v \in {0, 2, 3, 255}} \cup {FromInt(256), MinusOne64},
             offs |-> BOOLEAN, meta |-> BOOLEAN, csum |-> {0, 1, 8},
             ts |-> {U8(v) : v \in {0, 1, 127, 128, 255}} \cup {FromInt(256), MinusOne64},
             chunk |-> N64, last |-> N64, n |-> N64, cap |-> N64]
Magics == {<<>>, <<74, 83, 79, 78>>, <<1, 2, 3, 4, 5, 6, 7, 8>>, <<0, 74>>, <<74, 0, 0>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>}
MetaValues == [magic |-> Magics, opts |-> {0, 1, 255}, csum |-> {0, 1, 8}, codec |-> {0, 1},
               level |-> {U8(v) : v \in {0, 1, 9, 10}} \cup {FromInt(256), MinusOne64},
               raw |-> N64, max |-> N64, comp |-> N64, user |-> Magics]
Values == IF k = "bp" THEN BpValues ELSE MetaValues

BpDefault == [ver |-> U8(3), offs |-> TRUE, meta |-> FALSE, csum |-> 1, ts |-> U8(8),
              chunk |-> FromInt(256), last |-> FromInt(255), n |-> FromInt(1), cap |-> FromInt(1)]
MetaDefault == [magic |-> <<74, 83, 79, 78>>, opts |-> 0, csum |-> 1, codec |-> 1, level |-> U8(6),
                raw |-> FromInt(256), max |-> FromInt(256), comp |-> FromInt(1), user |-> <<>>]

Init == \E x \in Kinds : /\ k = x /\ d = 0 /\ b = <<>>
                         /\ f = (IF x = "bp" THEN BpDefault ELSE MetaDefault)

SetField == /\ d < Depth /\ b = <<>>
            /\ \E x \in DOMAIN f : \E v \in Values[x] : f' = [f EXCEPT ![x] = v]
            /\ d' = d + 1 /\ UNCHANGED <<k, b>>
Encode == /\ b = <<>> /\ Valid(k, f)
          /\ b' = Enc(k, f) /\ d' = Depth /\ UNCHANGED <<k, f>>
SetByte == /\ b # <<>> /\ d = Depth
           /\ \E i \in 1..32 : \E v \in {0, 1, 2, 3, 4, 9, 10, 127, 128, 255} : b' = [b EXCEPT ![i] = v]
           /\ d' = Depth + 1 /\ UNCHANGED <<k, f>>
Next == SetField \/ Encode \/ SetByte
Spec == Init /\ [][Next]_vars

Small == Depth = 1 \/ d < Depth \/ b = <<>> \/ d = Depth
RoundTrip == /\ Valid(k, f) => /\ Decodable(k, Enc(k, f))
                             /\ Fields(k, Enc(k, f)) = Normal(k, f)
                             /\ Len(Enc(k, f)) = 32 /\ IsBytes(Enc(k, f))
           /\ b # <<>> /\ Decodable(k, b) => Enc(k, Fields(k, b)) = b

Emit == PrintT("@H " \o ToJson(IF b' # <<>> THEN [t |-> "dec", k |-> k, b |-> b']
                               ELSE [t |-> "enc", k |-> k, f |-> f']))
=============================================================================
