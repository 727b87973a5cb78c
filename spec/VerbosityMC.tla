---------------------------- MODULE VerbosityMC ----------------------------
(* Sequences of selecting a level and saying something; three observers     *)
(* that run the same messages at the three levels.                          *)
EXTENDS Verbosity, TLC, Json
CONSTANTS Depth
Names == {"NORMAL", "VERBOSE", "DEBUG", "LOUD"}
VARIABLES level, out, at, h
vars == <<level, out, at, h>>
Levels == {"NORMAL", "VERBOSE", "DEBUG"}
Init == level = "NORMAL" /\ out = <<>> /\ at = [l \in Levels |-> <<>>] /\ h = <<>>
Set(l) == /\ level' = IF IsLevel(l) THEN l ELSE level
          /\ h' = Append(h, [k |-> "set", lv |-> l]) /\ UNCHANGED <<out, at>>
Say(l) == /\ h' = Append(h, [k |-> "say", lv |-> l])
          /\ LET m == Said("p", "", <<l, "", "x">>)
             IN /\ out' = IF IsLevel(l) /\ Appears(l, level) THEN out \o m ELSE out
                /\ at' = [v \in Levels |-> IF IsLevel(l) /\ Appears(l, v) THEN at[v] \o m ELSE at[v]]
          /\ UNCHANGED level
Next == Len(h) < Depth /\ \E l \in Names : Set(l) \/ Say(l)
Spec == Init /\ [][Next]_vars
Selected == level \in Levels
Filtered == PartOf(at["NORMAL"], at["VERBOSE"]) /\ PartOf(at["VERBOSE"], at["DEBUG"])
\* whatever was selected when, all that appeared is part of what the most talkative shows
Bounded == PartOf(out, at["DEBUG"])
Watch == IF Len(h') = Depth THEN PrintT("@H " \o ToJson(h')) ELSE TRUE
=============================================================================
