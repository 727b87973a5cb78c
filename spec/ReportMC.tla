------------------------------ MODULE ReportMC ------------------------------
(***************************************************************************)
(* For sizes and ratios around every border: exactly one text, or two at a *)
(* tie, shows a number; one that rounds down, uses units of 1000, or the   *)
(* wrong unit is told from it by one of the sizes of the harness.          *)
(***************************************************************************)
EXTENDS Report, FiniteSets, TLC
CONSTANT Ks

Ds == {-11, -10, -6, -5, -4, -1, 0, 1, 4, 5, 6, 9, 10, 11, 15, 16, 51, 512, 5242, 5243}
Around(k) == {Pow2(k) + d : d \in Ds} \cup {3 * Pow2(k - 1) + d : d \in Ds}
Ns == {0} \cup {n \in UNION {Around(k) : k \in Ks} : n > 0}
VARIABLE n
Init == n \in Ns
Next == UNCHANGED n
Spec == Init /\ [][Next]_n

\* what can be said about n in the unit u: all hundredths about it
Near(u) == IF n \div Pow2(Units[u]) > 2000 THEN {} ELSE LET q == (n \div Pow2(Units[u])) * 100 IN {v \in (q - 1)..(q + 101) : v >= 0}
Texts == {x \in {[v |-> v, u |-> u, n |-> n] : u \in {"B", "K", "M", "G"}, v \in {0}} : Shows(x, n)} \cup
         UNION {{x \in {[v |-> v, u |-> u, n |-> n] : v \in Near(u)} : Shows(x, n)} : u \in {"B", "K", "M", "G"}}
One == Cardinality(Texts) \in {1, 2}
\* the text determines the size to half a hundredth of its unit
Close == \A x \in Texts : LET e == Units[x.u] IN
            IF e = 0 THEN x.v = 100 * n
            ELSE LET shift == IF e > 10 THEN e - 10 ELSE 0
                     a == n \div Pow2(shift)
                 IN  2 * (x.v * Pow2(e - shift) - 100 * a) <= Pow2(e - shift) + 200 /\
                     2 * (100 * a - x.v * Pow2(e - shift)) <= Pow2(e - shift) + 200
=============================================================================
