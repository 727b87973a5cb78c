------------------------------ MODULE Deliver ------------------------------
(***************************************************************************)
(* Unpacking as a row of reads and writes, any of which may fail, or be    *)
(* the place where the container or the room for the output ends.          *)
(*                                                                         *)
(* The container: a header, perhaps metadata, perhaps offsets, and chunks  *)
(* of which each is read in parts and delivered in one write.              *)
(* Lenient is a reader that takes the end of its input between two chunks  *)
(* for the end of the data; Careless is one that goes on after a write     *)
(* that failed; Eager delivers a chunk before its digest is read.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxChunks, Lenient, Careless, Eager

Fails == {"error", "end", "torn"}
Reads(n, m, o, d) ==
    <<"header">> \o (IF m THEN <<"meta">> ELSE <<>>) \o (IF o THEN <<"table">> ELSE <<>>)
RECURSIVE Chunks(_, _, _)
Chunks(i, n, d) ==
    IF i > n THEN <<>>
    ELSE (IF Eager /\ d THEN <<<<"head", i>>, <<"body", i>>, <<"put", i>>, <<"digest", i>>>>
          ELSE <<<<"head", i>>, <<"body", i>>>> \o (IF d THEN <<<<"digest", i>>>> ELSE <<>>) \o <<<<"put", i>>>>)
         \o Chunks(i + 1, n, d)
Program(c) == [i \in 1..Len(Reads(c.n, c.m, c.o, c.d)) |-> <<Reads(c.n, c.m, c.o, c.d)[i], 0>>] \o Chunks(1, c.n, c.d)

VARIABLES con, prog, out, state, wrong, h
vars == <<con, prog, out, state, wrong, h>>

\* wrong: the chunk whose digest does not match what is stored (0: none)
Init == /\ con \in [n : 0..MaxChunks, m : BOOLEAN, o : BOOLEAN, d : BOOLEAN]
        /\ wrong \in 0..con.n /\ (wrong > 0 => con.d)
        /\ prog = Program(con) /\ out = <<>> /\ state = "running" /\ h = <<>>

IsPut(x) == x[1] = "put"
Good(i) == IF i = wrong THEN <<"wrong", i>> ELSE <<"chunk", i>>
Step == /\ state = "running"
        /\ IF prog = <<>> THEN state' = "done" /\ UNCHANGED <<prog, out>>
           ELSE LET x == Head(prog)
                IN  IF x[1] = "digest" /\ x[2] = wrong
                    THEN state' = "failed" /\ UNCHANGED <<prog, out>>
                    ELSE /\ prog' = Tail(prog)
                         /\ out' = IF IsPut(x) THEN Append(out, Good(x[2])) ELSE out
                         /\ state' = state
        /\ UNCHANGED <<con, wrong, h>>

Fail(k) == /\ state = "running" /\ prog # <<>>
           /\ LET x == Head(prog)
              IN  /\ k = "torn" => IsPut(x)
                  /\ k = "end" => ~IsPut(x)
                  /\ h' = <<[con |-> con, wrong |-> wrong, at |-> Len(Program(con)) - Len(prog), kind |-> k, what |-> x[1]]>>
                  /\ out' = IF k = "torn" THEN Append(out, <<"part", x[2]>>) ELSE out
                  /\ IF Lenient /\ k = "end" /\ x[1] = "head" THEN state' = "done" /\ prog' = prog
                     ELSE IF Careless /\ IsPut(x) THEN state' = state /\ prog' = Tail(prog)
                     ELSE state' = "failed" /\ prog' = prog
           /\ UNCHANGED <<con, wrong>>

Next == Step \/ (h = <<>> /\ \E k \in Fails : Fail(k))
Spec == Init /\ [][Next]_vars

\* whole chunks from the first on, and perhaps a part of the next
Beginning ==
    \A i \in DOMAIN out : \/ out[i] = <<"chunk", i>>
                          \/ out[i] = <<"part", i>> /\ i = Len(out)
Says == state = "done" => out = [i \in 1..con.n |-> <<"chunk", i>>]
Surfaces == h # <<>> => state = "failed"
Emit == (h # <<>> /\ state = "failed") => PrintT("@H " \o ToJson(h[1]))
=============================================================================
