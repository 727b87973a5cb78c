-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line: which file a command writes, and when the names it is *)
(* given make it refuse.  A command is a record                            *)
(*   cmd     "compress", "decompress", "append", "info", "none"            *)
(*   in      the file to read (append: the container)                      *)
(*   out     the file to write, or "" (append: the file with new data)     *)
(*   force, noext                                                          *)
(* A directory is a function from names to [t: "file" or "dir", id] where  *)
(* equal ids mean that two names lead to the same file.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ext == ".blp"
HasExt(s) == Len(s) >= Len(Ext) /\ SubSeq(s, Len(s) - Len(Ext) + 1, Len(s)) = Ext
Strip(s)  == SubSeq(s, 1, Len(s) - Len(Ext))
\* the directory part of a name, "" if there is none
DirOf(s) == LET slash == {i \in 1..Len(s) : SubSeq(s, i, i) = "/"}
            IN  IF slash = {} THEN ""
                ELSE SubSeq(s, 1, (CHOOSE i \in slash : \A j \in slash : j <= i) - 1)

Target(c) ==
    CASE c.cmd = "compress"   -> IF c.out # "" THEN c.out ELSE c.in \o Ext
      [] c.cmd = "decompress" -> IF c.out # "" THEN c.out
                                 ELSE IF HasExt(c.in) THEN Strip(c.in) ELSE ""
      [] c.cmd = "append"     -> c.in
      [] OTHER                -> ""
\* compress and decompress produce a file, append changes one
Produces(c) == c.cmd \in {"compress", "decompress"}
Reads(c) == CASE c.cmd = "append" -> {c.in, c.out} [] c.cmd = "none" -> {} [] OTHER -> {c.in}

IsFile(d, n) == n \in DOMAIN d /\ d[n].t = "file"
Exists(d, n) == n \in DOMAIN d
SameFile(d, a, b) == Exists(d, a) /\ Exists(d, b) /\ d[a].id = d[b].id

MissingInput(c, d)   == \E n \in Reads(c) : ~IsFile(d, n)
ExistingOutput(c, d) == Produces(c) /\ Exists(d, Target(c)) /\ ~c.force
WrongExtension(c)    == \/ c.cmd \in {"decompress", "append"} /\ ~c.noext /\ ~HasExt(c.in)
                        \/ c.cmd = "decompress" /\ c.noext /\ c.out = ""
\* there is nowhere to put the output
NoPlace(c, d) == /\ Produces(c)
                 /\ \/ Target(c) = ""
                    \/ Exists(d, Target(c)) /\ ~IsFile(d, Target(c))
                    \/ DirOf(Target(c)) # "" /\ ~(Exists(d, DirOf(Target(c))) /\ d[DirOf(Target(c))].t = "dir")
\* writing the output would destroy the input
OntoItself(c, d) == Produces(c) /\ SameFile(d, c.in, Target(c))

\* nothing is created, nothing is changed
Untouching(c, d) == MissingInput(c, d) \/ ExistingOutput(c, d) \/ WrongExtension(c)
RefusedByNames(c, d) == Untouching(c, d) \/ NoPlace(c, d) \/ OntoItself(c, d) \/ c.cmd = "none"

\* what may be different afterwards: only the target
FrameKept(c, d, e, same(_, _)) ==
    /\ \A n \in DOMAIN d : \/ Exists(e, n) /\ same(d[n], e[n])
                           \/ SameFile(d, n, Target(c)) /\ c.cmd \in {"compress", "decompress", "append"}
    /\ \A n \in DOMAIN e \ DOMAIN d : Produces(c) /\ SameFile(e, n, Target(c))
\* without force no file that exists is touched by compress and decompress
NotClobbered(c, d, e, same(_, _)) ==
    Produces(c) /\ ~c.force => \A n \in DOMAIN d : Exists(e, n) /\ same(d[n], e[n])
=============================================================================
