----------------------------- MODULE Verbosity -----------------------------
(***************************************************************************)
(* Levels and messages: a message of a level appears exactly when the      *)
(* level selected is at least as talkative.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

Rank(lv) == CASE lv = "NORMAL" -> 0 [] lv = "VERBOSE" -> 1 [] lv = "DEBUG" -> 2 [] OTHER -> 9
IsLevel(lv) == Rank(lv) # 9
Appears(message, selected) == Rank(message) <= Rank(selected)

\* what is printed for a text of several lines
NotEmpty(t) == SelectSeq(t, LAMBDA x : x # "")
Said(prefix, mark, t) == [i \in 1..Len(NotEmpty(t)) |-> prefix \o ": " \o mark \o NotEmpty(t)[i]]

\* one sequence of lines is part of another, in the same order
PartOf(a, b) ==
    FoldLeft(LAMBDA i, x : IF i < Len(a) /\ a[i + 1] = x THEN i + 1 ELSE i, 0, b) = Len(a)
=============================================================================
