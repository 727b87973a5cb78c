------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What verbose output says in numbers.  A size n is shown in the largest  *)
(* unit it has one of, to two decimals, as [v: hundredths, u: unit, n:     *)
(* bytes or -1]; a ratio to six decimals, as [i: integral part, f:         *)
(* millionths].  A line is [m: what it is about, ...].                     *)
(* Numbers here are below 2^31.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

Units == [B |-> 0, K |-> 10, M |-> 20, G |-> 30]
Pow2(k) == 2 ^ k

\* the decimals of a / b, b < 2^27: quotient and remainder, for so many digits
RECURSIVE Digits(_, _, _, _)
Digits(q, rem, b, k) == IF k = 0 THEN [q |-> q, rem |-> rem]
                        ELSE Digits(q * 10 + ((rem * 10) \div b), (rem * 10) % b, b, k - 1)

\* x is a / b rounded to so many digits (after the integral part i)
Rounded(i, f, a, b, k) ==
    LET d == Digits(0, a % b, b, k)
        up == IF d.q + 1 = 10 ^ k THEN <<(a \div b) + 1, 0>> ELSE <<a \div b, d.q + 1>>
        here == <<a \div b, d.q>>
        \* ties, and what floating point makes of them, either way
        near == LET t == 2 * d.rem - b IN t <= b \div 500 /\ -t <= b \div 500
    IN  IF near THEN <<i, f>> \in {here, up}
        ELSE IF 2 * d.rem < b THEN <<i, f>> = here ELSE <<i, f>> = up

\* s shows the size n
Shows(s, n) ==
    /\ s.u \in DOMAIN Units
    /\ s.n # -1 => s.n = n
    /\ IF n = 0 THEN s.u = "B" /\ s.v = 0
       ELSE LET e == Units[s.u]
                cut == IF e > 20 THEN 6 ELSE 0     \* few of the low bits matter
            IN  /\ n \div Pow2(e) >= 1 /\ (e < 30 => n \div Pow2(e) < 1024)
                /\ LET r(m) == Rounded(s.v \div 100, s.v % 100, m, Pow2(e - cut), 2)
                       m0 == n \div Pow2(cut)
                   IN  r(m0) \/ (cut > 0 /\ r(m0 + 1))

Ratio(r, a, b) == IF b = 0 THEN FALSE ELSE r.sign = 1 /\ Rounded(r.i, r.f, a, b, 6)
=============================================================================
