----------------------------- MODULE SettingsMC -----------------------------
(***************************************************************************)
(* A container is packed and appended to with settings of all kinds, each  *)
(* of them given or not.  The chunks remember the settings they were       *)
(* written with.  Every unit of the content has the number of the          *)
(* operation that brought it: a chunk is written by the last operation     *)
(* that added to it, or by a later one that had nothing to add.            *)
(*                                                                         *)
(* With Sloppy = TRUE a level of 0 and no shuffle are taken for not given; *)
(* TLC refutes AsRequested.                                                *)
(***************************************************************************)
EXTENDS Settings, FiniteSets, TLC, Json
CONSTANTS Depth, Sloppy, Few

CS == 2
All == [ts |-> 4, lv |-> 9, sh |-> 0, cn |-> "zstd"]
Given == IF Few
         THEN {NotGiven, All, [All EXCEPT !.lv = 0, !.sh = 2]}
              \cup {[NotGiven EXCEPT !.lv = l] : l \in {0, 9}} \cup {[NotGiven EXCEPT !.sh = s] : s \in {0, 2}}
              \cup {[NotGiven EXCEPT !.ts = 4], [NotGiven EXCEPT !.cn = "zstd"], [All EXCEPT !.ts = -1]}
         ELSE [ts : {-1, 4}, lv : {-1, 0, 9}, sh : {-1, 0, 2}, cn : {"", "zstd"}]

VARIABLES ts,    \* of the container
          ch,    \* its chunks: [u: units, z: settings]
          used,  \* ghost: what each operation was to use
          h
vars == <<ts, ch, used, h>>

Init == ts = 0 /\ ch = <<>> /\ used = <<>> /\ h = <<>>

\* what the implementation makes of what it is given
Takes(z, t) ==
    Fill(IF Sloppy THEN [z EXCEPT !.lv = IF @ = 0 THEN -1 ELSE @, !.sh = IF @ = 0 THEN -1 ELSE @] ELSE z, t)

Units(k, n) == [i \in 1..n |-> k]
Pieces(u, z) == [i \in 1..((Len(u) + CS - 1) \div CS) |->
                   [u |-> SubSeq(u, (i-1)*CS + 1, IF i*CS < Len(u) THEN i*CS ELSE Len(u)), z |-> z]]

Pack(n, z) ==
    /\ ch = <<>>
    /\ ts' = Fill(z, 8).ts
    /\ ch' = Pieces(Units(1, n), Takes(z, 8))
    /\ used' = <<Fill(z, 8)>>
    /\ h' = <<[op |-> "pack", n |-> n, z |-> z]>>

AppendTo(n, z, rewrites) ==
    /\ ch # <<>> /\ Len(h) < Depth
    /\ LET k == Len(h) + 1
           t == Takes(z, ts)
           l == ch[Len(ch)]
           room == CS - Len(l.u)
           fill == IF n < room THEN n ELSE room
           \* with nothing to add, the last chunk may be left alone
           last == IF fill > 0 \/ rewrites THEN [u |-> l.u \o Units(k, fill), z |-> t] ELSE l
       IN  ch' = SubSeq(ch, 1, Len(ch) - 1) \o <<last>> \o Pieces(Units(k, n - fill), t)
    /\ used' = Append(used, Fill(z, ts))
    /\ h' = Append(h, [op |-> "append", n |-> n, z |-> z])
    /\ UNCHANGED ts

Next == \/ \E n \in 1..3, z \in Given : Pack(n, z)
        \/ \E n \in {0, 1, 3}, z \in Given, r \in BOOLEAN : AppendTo(n, z, r)
Spec == Init /\ [][Next]_vars

Newest(u) == CHOOSE k \in {u[i] : i \in DOMAIN u} : \A i \in DOMAIN u : u[i] <= k
AsRequested == \A i \in DOMAIN ch : \E k \in Newest(ch[i].u)..Len(used) : ch[i].z = used[k]
TypesizeStays == used # <<>> => ts = used[1].ts

View == <<ts, ch, used>>
Watch == IF h' # h /\ Len(h') >= 2 THEN PrintT("@H " \o ToJson(h')) ELSE TRUE
=============================================================================
