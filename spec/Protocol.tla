------------------------------ MODULE Protocol ------------------------------
(***************************************************************************)
(* How the packing and unpacking loops drive a source and a sink, whoever  *)
(* wrote them.  A request r has                                            *)
(*   dir   "pack" or "unpack"                                              *)
(*   n     how many chunks the source has                                  *)
(*   meta  whether there is metadata                                       *)
(*   bad   the chunks whose digest does not fit (unpack)                   *)
(*   src, snk, cmp  whether the calls of source, sink, and compression     *)
(*         function are seen                                               *)
(* A call is [c: name, i: number of the chunk, or 0]; where the source and *)
(* the arguments are not those they ought to be, i is -1.  The order       *)
(* between calls to different parties is free, where it does not matter:   *)
(* reading ahead, for example, is allowed.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Once == {"conf source", "conf sink", "header", "meta", "offsets", "iter", "end", "final"}
OfSource == {"conf source", "iter", "end"}

\* what is not seen is taken to have happened
Start(r) ==
    LET pack == r.dir = "pack"
    IN  [done  |-> (IF r.src THEN (IF pack THEN {} ELSE {"conf source"}) ELSE OfSource) \cup
                   (IF r.snk /\ pack THEN (IF r.meta THEN {} ELSE {"meta"})
                    ELSE {"conf sink", "header", "meta", "offsets", "final"}),
         chunk |-> IF r.src THEN 0 ELSE r.n,
         comp  |-> IF r.cmp THEN 0 ELSE r.n,
         put   |-> IF r.snk THEN 0 ELSE r.n]

Enabled(r, s, c) ==
    LET did(x) == x \in s.done
    IN  CASE c.c \in {"conf source", "conf sink"} -> c.i = 0 /\ ~did(c.c) /\ (c.c = "conf source" => ~did("iter"))
          [] c.c = "header"  -> ~did("header") /\ did("conf sink")
          [] c.c = "meta"    -> ~did("meta") /\ did("header") /\ c.i = 0
          [] c.c = "offsets" -> ~did("offsets") /\ did("header") /\ did("meta")
          [] c.c = "iter"    -> ~did("iter") /\ did("conf source") /\ c.i = 0
          [] c.c = "chunk"   -> did("iter") /\ ~did("end") /\ c.i = s.chunk + 1 /\ c.i <= r.n
          [] c.c = "end"     -> did("iter") /\ ~did("end") /\ s.chunk = r.n
          [] c.c = "comp"    -> c.i = s.comp + 1 /\ c.i <= s.chunk
          [] c.c = "put"     -> /\ did("offsets") /\ c.i = s.put + 1
                                /\ c.i <= s.chunk /\ c.i <= s.comp /\ c.i \notin r.bad
          [] c.c = "final"   -> ~did("final") /\ did("end") /\ did("offsets") /\ s.put = r.n
          [] OTHER           -> FALSE

After(r, s, c) ==
    CASE c.c \in Once   -> [s EXCEPT !.done = @ \cup {c.c}]
      [] c.c = "chunk"  -> [s EXCEPT !.chunk = c.i]
      [] c.c = "comp"   -> [s EXCEPT !.comp = c.i]
      [] OTHER          -> [s EXCEPT !.put = c.i]

\* everything that has to be called was
Complete(r, s) == /\ {"conf sink", "header", "meta", "offsets", "end", "final"} \subseteq s.done
                  /\ s.put = r.n /\ s.comp = r.n
=============================================================================
