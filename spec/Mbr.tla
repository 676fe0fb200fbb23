---------------------------------- MODULE Mbr ----------------------------------
(***************************************************************************)
(* The protective MBR: the object, block 0, and what every operation does.   *)
(*                                                                         *)
(* The 512 bytes of a record are [boot, sig, unk, recs, magic]: boot code,    *)
(* disk signature, the two bytes behind it, four partition records, and the   *)
(* signature of the block.  An object is such a record whose magic is right.   *)
(* Outcomes are [r |-> "ok" or "err", v |-> value, o |-> object, b |-> block].  *)
(***************************************************************************)
EXTENDS Sequences, Naturals

ZeroRec == "00000000000000000000000000000000"
Magic == "55aa"
\* one partition of type EE from block 1 of the given size (little endian)
ProtectiveRec(size) == "00000200eeffffff01000000" \o size

NewMbr(size, zeroBoot) ==
  [boot |-> zeroBoot, sig |-> "00000000", unk |-> "0000",
   recs |-> <<ProtectiveRec(size), ZeroRec, ZeroRec, ZeroRec>>, magic |-> Magic]
Accepted(b) == b.magic = Magic
SetBoot(o, x) == [o EXCEPT !.boot = x]
SetSig(o, x) == [o EXCEPT !.sig = x]
\* record k of 1..4; other numbers change nothing and give nothing
SetPart(o, k, r) == IF k \in 1..4 THEN [v |-> <<o.recs[k]>>, o |-> [o EXCEPT !.recs[k] = r]]
                    ELSE [v |-> <<>>, o |-> o]
\* what is in block 0 afterwards
Overwritten(o, b) == o
Conserved(o, b) == [b EXCEPT !.recs = o.recs, !.magic = o.magic]
WithBoot(b, x) == [b EXCEPT !.boot = x]
WithSig(b, x) == [b EXCEPT !.sig = x]
=============================================================================
