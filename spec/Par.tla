-------------------------------- MODULE Par --------------------------------
(***************************************************************************)
(* Operations on separate data that run at the same time, in lanes that    *)
(* are switched at their reads, writes and calls of the compressor.  Every *)
(* lane works through its program: it reads a piece into its buffer,       *)
(* transforms the buffer and writes it out; what it writes must be what it *)
(* writes alone.  With Shared = TRUE the buffer and the position are the   *)
(* same for all lanes (a module variable, say); TLC then refutes Alone and *)
(* gives the schedule.  With a bound on the number of preemptions the      *)
(* schedules that it prints are run on the real code.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Lanes, Kinds, N, Preemptions, Shared

\* what an operation does at its points of contact with the outside
Loop(n, body(_)) == LET F[i \in 0..n] == IF i = 0 THEN <<>> ELSE F[i - 1] \o body(i) IN F[n]
Piece(i) == << [a |-> "read", i |-> i], [a |-> "code", i |-> i], [a |-> "write", i |-> i] >>
Program(k, n) ==
    CASE k = "pack"    -> << [a |-> "write", i |-> 100] >> \o Loop(n, Piece) \o << [a |-> "write", i |-> 101] >>
      [] k = "unpack"  -> << [a |-> "read", i |-> 100] >> \o Loop(n, Piece)
      [] k = "append"  -> << [a |-> "read", i |-> 100], [a |-> "read", i |-> 101], [a |-> "code", i |-> 101],
                             [a |-> "seek", i |-> 101] >>
                          \o Loop(n, Piece) \o << [a |-> "write", i |-> 102], [a |-> "write", i |-> 103] >>
      [] k = "rewrite" -> << [a |-> "read", i |-> 100], [a |-> "code", i |-> 100], [a |-> "write", i |-> 100],
                             [a |-> "write", i |-> 101] >>

VARIABLES kind,     \* lane -> what it does
          pc,       \* lane -> steps done
          buf,      \* lane (or 1 for all) -> buffer: lane it came from, piece, transformed
          at,       \* lane (or 1 for all) -> the piece it is working on
          out,      \* lane -> what it has written
          run,      \* the schedule: <<lane, steps>>
          left      \* preemptions left
vars == <<kind, pc, buf, at, out, run, left>>

Own(l) == IF Shared THEN 1 ELSE l
Empty == [l |-> 0, i |-> 0, z |-> FALSE]
Prog(l) == Program(kind[l], N)
Done(l) == pc[l] = Len(Prog(l))

Init == /\ kind \in [1..Lanes -> Kinds]
        /\ pc = [l \in 1..Lanes |-> 0] /\ out = [l \in 1..Lanes |-> <<>>]
        /\ buf = [l \in 1..Lanes |-> Empty] /\ at = [l \in 1..Lanes |-> 0]
        /\ run = <<>> /\ left = Preemptions

Effect(l, s) ==
    LET o == Own(l) IN
    CASE s.a = "read"  -> /\ buf' = [buf EXCEPT ![o] = [l |-> l, i |-> s.i, z |-> FALSE]]
                          /\ at' = [at EXCEPT ![o] = s.i] /\ UNCHANGED out
      [] s.a = "code"  -> /\ buf' = [buf EXCEPT ![o].z = TRUE] /\ UNCHANGED <<at, out>>
      [] s.a = "seek"  -> UNCHANGED <<buf, at, out>>
      [] s.a = "write" -> /\ out' = [out EXCEPT ![l] = Append(@, IF s.i >= 100 THEN [l |-> l, i |-> s.i, z |-> FALSE, at |-> s.i]
                                                               ELSE [l |-> buf[o].l, i |-> buf[o].i, z |-> buf[o].z, at |-> at[o]])]
                          /\ UNCHANGED <<buf, at>>

\* the lane that ran last may be preempted while it is not done
Last == IF run = <<>> THEN 0 ELSE run[Len(run)][1]
Go(l) ==
    /\ ~Done(l)
    /\ LET preempts == Last # 0 /\ l # Last /\ ~Done(Last)
       IN  /\ preempts => left > 0
           /\ left' = IF preempts THEN left - 1 ELSE left
    /\ run' = IF l = Last THEN [run EXCEPT ![Len(run)] = <<l, @[2] + 1>>] ELSE Append(run, <<l, 1>>)
    /\ pc' = [pc EXCEPT ![l] = @ + 1]
    /\ Effect(l, Prog(l)[pc[l] + 1])
    /\ UNCHANGED kind

Next == \E l \in 1..Lanes : Go(l)
Spec == Init /\ [][Next]_vars

\* what a lane writes when it is alone
Solo(l) == LET p == Prog(l)
               ws == SelectSeq(p, LAMBDA s : s.a = "write")
           IN  [j \in 1..Len(ws) |-> [l |-> l, i |-> ws[j].i, z |-> ws[j].i < 100, at |-> ws[j].i]]
Alone == \A l \in 1..Lanes : out[l] = SubSeq(Solo(l), 1, Len(out[l]))
Complete == \A l \in 1..Lanes : Done(l) => Len(out[l]) = Len(Solo(l))

Watch == IF \A l \in 1..Lanes : pc'[l] = Len(Prog(l))
         THEN PrintT("@H " \o ToJson([kinds |-> kind, run |-> run'])) ELSE TRUE
=============================================================================
