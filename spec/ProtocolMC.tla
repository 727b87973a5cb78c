----------------------------- MODULE ProtocolMC -----------------------------
(***************************************************************************)
(* Two sessions, of which the second may take place inside of a call of    *)
(* the first (a source that unpacks, a sink that packs), any call of which *)
(* may fail; and what has come out at the sinks.  Whatever the loop does   *)
(* that Protocol allows is safe: a sink that was finalized holds all of it,*)
(* and one that was not is known to be unfinished.  Mistake is one of      *)
(*   "finally"  a sink is finalized although something failed              *)
(*   "late"     a chunk is handed over before its digest is looked at      *)
(*   "shared"   the number of the chunk is shared by the sessions          *)
(***************************************************************************)
EXTENDS Protocol, TLC, Json
CONSTANTS N, Small, Mistake

Names == Once \cup {"chunk", "comp", "put"}
Requests == {r \in [dir: {"pack", "unpack"}, n: 0..N, meta: BOOLEAN, bad: SUBSET (1..N),
                    src: {TRUE}, snk: {TRUE}, cmp: BOOLEAN] :
               /\ r.dir = "pack" => r.bad = {} /\ r.cmp
               /\ r.dir = "unpack" => ~r.meta /\ ~r.cmp /\ \A i \in r.bad : i <= r.n}

VARIABLES r,      \* the requests of the sessions
          s,      \* what each has done
          up,     \* how each ended: "", "ok", "failed", "mismatch"
          now,    \* which session runs
          at,     \* the call of the first inside of which the second runs
          fails,  \* session and call that failed
          out,    \* chunks in each sink
          fin     \* which sinks are taken to be complete
vars == <<r, s, up, now, at, fails, out, fin>>

None == [c |-> "", i |-> 0]
Init == /\ r \in [1..2 -> Requests]
        /\ r[2].n <= 1
        /\ Small => r[2].n = 1 /\ ~r[2].meta /\ Cardinality(r[1].bad) <= 1 /\ (r[1].n > 0 => r[1].meta \/ r[1].dir = "unpack")
        /\ s = [k \in 1..2 |-> Start(r[k])] /\ up = <<"", "">> /\ now = 1 /\ at = None
        /\ fails = [k |-> 0, c |-> None] /\ out = <<<<>>, <<>>>> /\ fin = {}

Calls(k) == {[c |-> c, i |-> i] : c \in Names, i \in 0..N}
May(k, c) == \/ Enabled(r[k], s[k], c)
             \/ /\ Mistake = "late" /\ c.c = "put"
                /\ Enabled([r[k] EXCEPT !.bad = {}], s[k], c)
\* what the sink receives
Item(k, i) == IF Mistake = "shared" /\ at # None /\ k = 1 THEN 0 ELSE i

Call(c) ==
    LET k == now IN
    /\ up[k] = "" /\ May(k, c)
    /\ s' = [s EXCEPT ![k] = After(r[k], @, c)]
    /\ out' = IF c.c = "put" THEN [out EXCEPT ![k] = Append(@, Item(k, c.i))] ELSE out
    /\ fin' = IF c.c = "final" THEN fin \cup {k} ELSE fin
    /\ UNCHANGED <<r, up, now, at, fails>>
\* a call of the first session runs the second one
Nest(c) == /\ now = 1 /\ at = None /\ up[1] = "" /\ Enabled(r[1], s[1], c)
           /\ now' = 2 /\ at' = c
           /\ UNCHANGED <<r, s, up, fails, out, fin>>
Fail(c) == /\ up[now] = "" /\ fails.k = 0 /\ Enabled(r[now], s[now], c)
           /\ fails' = [k |-> now, c |-> c]
           /\ up' = [up EXCEPT ![now] = "failed"]
           /\ fin' = IF Mistake = "finally" /\ r[now].dir = "pack" THEN fin \cup {now} ELSE fin
           /\ UNCHANGED <<r, s, now, at, out>>
Mismatch == /\ up[now] = "" /\ r[now].dir = "unpack"
            /\ \E i \in r[now].bad : i <= s[now].chunk
            /\ up' = [up EXCEPT ![now] = "mismatch"]
            /\ UNCHANGED <<r, s, now, at, fails, out, fin>>
Return == /\ up[now] = "" /\ Complete([r[now] EXCEPT !.cmp = FALSE], s[now])
          /\ up' = [up EXCEPT ![now] = "ok"]
          /\ UNCHANGED <<r, s, now, at, fails, out, fin>>
\* the second is over: what it was caught in goes on, or fails as well
Back == /\ now = 2 /\ up[2] # "" /\ up[1] = ""
        /\ now' = 1
        /\ \/ UNCHANGED up
           \/ up[2] # "ok" /\ up' = [up EXCEPT ![1] = "failed"]
        /\ UNCHANGED <<r, s, at, fails, out, fin>>
Next == \/ \E c \in Calls(now) : Call(c) \/ Nest(c) \/ Fail(c)
        \/ Mismatch \/ Return \/ Back
Spec == Init /\ [][Next]_vars

Upto(n) == [i \in 1..n |-> i]
InOrder == \A k \in 1..2 : out[k] = Upto(Len(out[k]))
Whole == \A k \in 1..2 : up[k] = "ok" => /\ out[k] = Upto(r[k].n)
                                         /\ r[k].bad = {}
                                         /\ r[k].dir = "pack" => k \in fin
Unfinished == \A k \in fin : Len(out[k]) = r[k].n /\ up[k] \in {"", "ok"}
Clean == \A k \in 1..2, i \in 1..N : i \in r[k].bad => ~\E j \in 1..Len(out[k]) : out[k][j] = i
\* the sink knows what it is to hold before it gets any
Told == \A k \in 1..2 : out[k] # <<>> /\ r[k].dir = "pack" =>
            {"conf sink", "header", "offsets"} \subseteq s[k].done /\ (r[k].meta => "meta" \in s[k].done)
\* something can always be done
Alive == \/ up[1] # "" \/ ENABLED Next

\* the histories, as programs: requests, place of the second, failure
Watch == IF up'[1] # "" /\ up[1] = "" THEN PrintT("@H " \o ToJson([r |-> r, at |-> at, fails |-> fails])) ELSE TRUE
=============================================================================
