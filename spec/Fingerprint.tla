---------------------------- MODULE Fingerprint ----------------------------
(***************************************************************************)
(* Content of real byte strings: <<length, r1, w1, r2, w2, r3, w3>> with   *)
(* r = the string as a base 256 number and w = 256^length, modulo three    *)
(* primes whose squares fit in 31 bits.  Concatenation is exact:           *)
(* FpCat(fp(x), fp(y)) = fp(x \o y).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences
P1 == 46337
P2 == 46327
P3 == 46309
FpNil == <<0, 0, 1, 0, 1, 0, 1>>
FpSize(f) == f[1]
FpCat(f, g) == << f[1] + g[1],
                  (f[2] * g[3] + g[2]) % P1, (f[3] * g[3]) % P1,
                  (f[4] * g[5] + g[4]) % P2, (f[5] * g[5]) % P2,
                  (f[6] * g[7] + g[6]) % P3, (f[7] * g[7]) % P3 >>
=============================================================================
