------------------------------- MODULE CliMC -------------------------------
(***************************************************************************)
(* Sequences of commands over a small directory.  The effect of a command  *)
(* is given by what is in the files: a file is a sequence of units, and a  *)
(* container is one unit that holds the units of what was compressed, so   *)
(* containers of containers are covered.  TLC checks that the names alone  *)
(* decide what Cli says they decide, that a compressed file comes back     *)
(* under the name it had, that nothing is lost that was not forced, and    *)
(* prints every history.                                                   *)
(***************************************************************************)
EXTENDS Cli, TLC, Json
CONSTANTS Depth, Names, Fresh

VARIABLES fs,    \* name -> content
          last,  \* last command and its status
          pre,   \* the directory before it
          h
vars == <<fs, last, pre, h>>

File(c)  == [t |-> "file", c |-> c]
Box(c)   == <<"box", c>>
IsBox(x) == Len(x.c) = 1 /\ x.c[1][1] = "box"
Sym(k)   == <<"sym", k>>
\* no two names lead to the same file here (the replays have links)
Dir == [n \in DOMAIN fs |-> [t |-> fs[n].t, id |-> n, c |-> fs[n].c]]
DirPre == [n \in DOMAIN pre |-> [t |-> pre[n].t, id |-> n, c |-> pre[n].c]]
Same(a, b) == a.t = b.t /\ a.c = b.c

Init == /\ fs = [n \in {"d"} |-> File(<<Sym(0)>>)]
        /\ last = [c |-> [cmd |-> "none", in |-> "", out |-> "", force |-> FALSE, noext |-> FALSE],
                   ok |-> FALSE]
        /\ pre = fs /\ h = <<>>

Write(n, x) == [m \in DOMAIN fs \cup {n} |-> IF m = n THEN x ELSE fs[m]]

\* the command itself, as the implementation goes about it
Run(c) ==
    LET t  == Target(c)
        ok == CASE c.cmd = "compress" -> /\ c.in \in DOMAIN fs /\ (c.force \/ t \notin DOMAIN fs)
                                         /\ t # c.in
                [] c.cmd = "decompress" ->
                     /\ IF c.noext THEN c.out # "" ELSE HasExt(c.in)
                     /\ c.in \in DOMAIN fs /\ (c.force \/ t \notin DOMAIN fs) /\ t # c.in
                     /\ IsBox(fs[c.in])
                [] c.cmd = "append" ->
                     /\ c.noext \/ HasExt(c.in)
                     /\ c.in \in DOMAIN fs /\ c.out \in DOMAIN fs /\ c.in # c.out
                     /\ IsBox(fs[c.in])
                [] c.cmd = "info" -> c.in \in DOMAIN fs /\ IsBox(fs[c.in])
                [] OTHER -> FALSE
    IN  /\ Len(h) < Depth
        /\ pre' = fs
        /\ last' = [c |-> c, ok |-> ok]
        /\ h' = Append(h, c)
        /\ fs' = IF ~ok THEN fs
                 ELSE CASE c.cmd = "compress"   -> Write(t, File(<<Box(fs[c.in].c)>>))
                        [] c.cmd = "decompress" -> Write(t, File(fs[c.in].c[1][2]))
                        [] c.cmd = "append"     -> Write(t, File(<<Box(fs[c.in].c[1][2] \o fs[c.out].c)>>))
                        [] OTHER -> fs

\* the user makes, replaces or removes a file
Make(n) == /\ Len(h) < Depth
           /\ h' = Append(h, [cmd |-> "make", in |-> n, out |-> "", force |-> FALSE, noext |-> FALSE])
           /\ fs' = Write(n, File(<<Sym(Len(h) + 1)>>))
           /\ pre' = fs' /\ last' = [last EXCEPT !.c.cmd = "none", !.ok = FALSE]
Remove(n) == /\ Len(h) < Depth /\ n \in DOMAIN fs
             /\ h' = Append(h, [cmd |-> "remove", in |-> n, out |-> "", force |-> FALSE, noext |-> FALSE])
             /\ fs' = [m \in DOMAIN fs \ {n} |-> fs[m]]
             /\ pre' = fs' /\ last' = [last EXCEPT !.c.cmd = "none", !.ok = FALSE]

Cmd(k, i, o, f, x) == [cmd |-> k, in |-> i, out |-> o, force |-> f, noext |-> x]
Next == \/ \E i \in Names, o \in Names \cup {""}, f \in BOOLEAN : Run(Cmd("compress", i, o, f, FALSE))
        \/ \E i \in Names, o \in Names \cup {""}, f \in BOOLEAN, x \in BOOLEAN :
              Run(Cmd("decompress", i, o, f, x))
        \/ \E i \in Names, o \in Names, x \in BOOLEAN : Run(Cmd("append", i, o, FALSE, x))
        \/ \E i \in Names : Run(Cmd("info", i, "", FALSE, FALSE))
        \/ \E n \in Fresh : Make(n)
        \/ \E n \in Names : Remove(n)
Spec == Init /\ [][Next]_vars
View == <<fs, Len(h)>>

\* evaluated for every transition, also to states seen before
Good ==
    LET c == last'.c
        d == DirPre'
        e == Dir'
    IN  c.cmd # "none" =>
        /\ FrameKept(c, d, e, Same)
        /\ NotClobbered(c, d, e, Same)
        /\ Untouching(c, d) => d = e
        /\ RefusedByNames(c, d) => ~last'.ok
        /\ c.cmd = "compress" => (last'.ok <=> ~RefusedByNames(c, d))
        /\ ~last'.ok => d = e
        \* what was compressed comes back under its name
        /\ c.cmd = "compress" /\ last'.ok /\ c.out = "" =>
              LET b == Cmd("decompress", Target(c), "", TRUE, FALSE)
              IN  Target(b) = c.in /\ e[Target(c)].c[1][2] = d[c.in].c
        \* an append adds at the end and only there
        /\ c.cmd = "append" /\ last'.ok =>
              e[c.in].c[1][2] = d[c.in].c[1][2] \o d[c.out].c
Watch == Assert(Good, <<"clauses broken", last'.c>>) /\ PrintT("@H " \o ToJson(h'))
=============================================================================
