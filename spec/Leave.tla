------------------------------- MODULE Leave -------------------------------
(***************************************************************************)
(* What an operation leaves behind.  An operation opens the files it was   *)
(* given the names of, reads and writes them and those its caller has      *)
(* opened, may change a setting of the process for a while, and ends,      *)
(* either by returning or, from any point on, by an error which its caller *)
(* may keep (with all that the error refers to).                           *)
(*                                                                         *)
(* In the end the operation has no file open, those of its caller are      *)
(* open, there is no file that was not to be written, and all settings are *)
(* what they were.  Refuted, as they should be: operations that leave the  *)
(* closing to the garbage collector (Lazy), that close what is not theirs  *)
(* (Greedy), that keep what is not finished under another name (Litters)   *)
(* and that restore a setting only when they return (Careless).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Lazy, Greedy, Litters, Careless, MaxWork

Handles == {"in", "out"}
\* which of the two files are opened by the operation, which by the caller, which is neither (bytes)
Kinds == { k \in [Handles -> {"own", "callers", "none"}] : TRUE }
Fates == {"none", "absent", "refused", "read", "write", "close"}

VARIABLES kind, fate, at,       \* the operation, how it ends, after how much work
          pc, work, open, files, setting, left
vars == <<kind, fate, at, pc, work, open, files, setting, left>>

Owned == {h \in Handles : kind[h] = "own"}
Callers == {h \in Handles : kind[h] = "callers"}
Possible(k, f) ==
    CASE f = "read" -> k["in"] # "none"
      [] f = "write" -> k["out"] # "none"
      [] f = "close" -> k["out"] = "own"
      [] f = "absent" -> \E h \in Handles : k[h] = "own"
      [] OTHER -> TRUE
Init == /\ kind \in Kinds /\ fate \in Fates /\ Possible(kind, fate)
        /\ at \in IF fate \in {"read", "write", "refused"} THEN 0..MaxWork ELSE {0}
        /\ pc = "opening" /\ work = 0 /\ open = Callers /\ files = {} /\ setting = "usual" /\ left = "running"

\* what is done in any case in the end: with and finally
Ended(how) ==
    /\ left' = how
    /\ open' = IF Lazy /\ how = "raised" THEN open ELSE (IF Greedy THEN {} ELSE open \ Owned)
    /\ setting' = IF Careless /\ how = "raised" THEN setting ELSE "usual"
    /\ files' = IF Litters /\ how = "raised" THEN files ELSE files \ {"temporary"}
    /\ pc' = "end"
    /\ UNCHANGED <<kind, fate, at, work>>

Opening ==
    /\ pc = "opening"
    /\ IF fate = "absent" THEN Ended("raised")
       ELSE /\ open' = open \cup Owned
            /\ files' = files \cup {h \in {"out"} : h \in Owned} \cup (IF Litters THEN {"temporary"} ELSE {})
            /\ setting' = IF Careless THEN "changed" ELSE setting
            /\ pc' = "working"
            /\ UNCHANGED <<kind, fate, at, work, left>>
Working ==
    /\ pc = "working"
    /\ IF fate \in {"read", "write", "refused"} /\ work = at THEN Ended("raised")
       ELSE IF work = MaxWork THEN Ended(IF fate = "close" THEN "raised" ELSE "returned")
       ELSE /\ work' = work + 1
            /\ UNCHANGED <<kind, fate, at, pc, open, files, setting, left>>
Next == Opening \/ Working
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == left # "running"
NothingOpen == Over => open \cap Owned = {}
TheirsOpen == Over => Callers \subseteq open
NoOtherFile == Over => files \subseteq {"out"}
AsItWas == Over => setting = "usual"
Surfaces == Over => (left = "returned" <=> fate = "none")
Ends == <>Over
Emit == pc = "end" => PrintT("@H " \o ToJson([in |-> kind["in"], out |-> kind["out"], fate |-> fate, at |-> at]))
=============================================================================
