-------------------------------- MODULE Crash --------------------------------
(***************************************************************************)
(* What can be on a device after a power loss during a recorded write.      *)
(*                                                                         *)
(* The recording of a write is a sequence of block writes and flushes; the   *)
(* contents of blocks are numbers (equal contents, equal numbers).  After a   *)
(* power loss, every block holds one of the contents it had since the last    *)
(* completed flush, independently of the others.  For a recording             *)
(*   w.last   the last block: the position of the backup header              *)
(*   w.init   <<block, content>> before the write                            *)
(*   w.ops    sequences of <<block, content>>; <<>> is a flush               *)
(*   w.hdrs   what the contents that were at the header positions mean:       *)
(*            [pos, id, ok, blks, vecs]: for a header with the right checksum *)
(*            the blocks of its array, and the contents of these that match   *)
(*            the array's checksum, with the table (its digest) they are      *)
(* AfterCrash(w) is the set of results of opening the device after a power loss    *)
(* at any point: digests of tables, or Fail.  It is exact if no block belongs *)
(* to two copies.                                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Fail == "fail"

\* at most cap: the number of ways to choose a content for every block
RECURSIVE Ways(_, _, _, _)
Ways(blks, ver, n, cap) ==
  IF blks = <<>> \/ n > cap THEN n
  ELSE Ways(Tail(blks), ver, n * Cardinality(ver[Head(blks)]), cap)

\* what a copy can be: tables, or Fail
CopyIs(w, pos, ver) ==
  UNION {LET hs == {h \in {w.hdrs[k] : k \in DOMAIN w.hdrs} : h.pos = pos /\ h.id = id /\ h.ok}
         IN  IF hs = {} THEN {Fail}
             ELSE LET h == CHOOSE x \in hs : TRUE
                      can == {k \in DOMAIN h.vecs :
                                \A j \in DOMAIN h.blks : h.vecs[k].ids[j] \in ver[h.blks[j]]}
                  IN  {h.vecs[k].tab : k \in can}
                      \cup IF Ways(h.blks, ver, 1, 1000) > Cardinality(can) THEN {Fail} ELSE {}
         : id \in ver[pos]}

\* opening prefers the primary copy
Results(w, ver) ==
  LET p == CopyIs(w, 1, ver) IN
  (p \ {Fail}) \cup IF Fail \in p THEN CopyIs(w, w.last, ver) ELSE {}

\* ver: the contents every block had since the last flush; cur: the last one.
\* What is possible within an epoch is possible at its end.
RECURSIVE Walk(_, _, _, _, _)
Walk(w, ops, cur, ver, acc) ==
  IF ops = <<>> THEN acc \cup Results(w, ver)
  ELSE IF Head(ops) = <<>>
  THEN Walk(w, Tail(ops), cur, [b \in DOMAIN cur |-> {cur[b]}], acc \cup Results(w, ver))
  ELSE LET o == Head(ops)
           at(b) == {k \in DOMAIN o : o[k][1] = b}
           hit == {o[k][1] : k \in DOMAIN o}
           new(b) == o[CHOOSE k \in at(b) : TRUE][2]
       IN  Walk(w, Tail(ops),
                [b \in DOMAIN cur |-> IF b \in hit THEN new(b) ELSE cur[b]],
                [b \in DOMAIN cur |-> IF b \in hit THEN ver[b] \cup {new(b)} ELSE ver[b]], acc)

AfterCrash(w) ==
  LET bs == {w.init[k][1] : k \in DOMAIN w.init}
      c0 == [b \in bs |-> w.init[CHOOSE k \in DOMAIN w.init : w.init[k][1] = b][2]]
  IN  Walk(w, w.ops, c0, [b \in bs |-> {c0[b]}], {})
\* number of crash states considered: epochs, each with all choices of its contents
Epochs(w) == 1 + Len(SelectSeq(w.ops, LAMBDA o : o = <<>>))
=============================================================================
