--------------------------------- MODULE Gpt ---------------------------------
(***************************************************************************)
(* The specification of the gpt crate: what a disk object is, what is on    *)
(* the device, and what every operation of the public API does to both.     *)
(*                                                                         *)
(* Operations are written as functions from a state to an outcome           *)
(* (DoCreate, DoOpen, DoAdd, ..., DoWrite).  They are used twice:           *)
(*   - GptMC.tla turns them into actions and model checks the properties    *)
(*     on every reachable state of small disks;                            *)
(*   - Monitor.tla validates behaviours recorded from the real code         *)
(*     against them, step by step.                                         *)
(*                                                                         *)
(* Data:                                                                   *)
(*   numbers     sequences of base-10^4 digits (Wide.tla)                  *)
(*   GUIDs       strings (32 hex digits), attribute bits: strings          *)
(*   names       sequences of UTF-16 code units                            *)
(*   entry       [id, t, os, u, f, l, a, n]: number, type GUID, operating  *)
(*               system label, unique GUID, first and last block,          *)
(*               attributes, name                                          *)
(*   parts       the entries of a table, a sequence ascending in id        *)
(*   header      [ok |-> TRUE, sig, rev, hs, cur, bak, fu, lu, g, ps, np,   *)
(*               es] or [ok |-> FALSE, err |-> kind]                        *)
(*   disk        [c |-> configuration, g, p, b, parts]: the object          *)
(*   view        what an independent reader finds at a header position     *)
(*   medium      [nb |-> number of whole blocks, p, b |-> views of block 1  *)
(*               and of the last block]                                    *)
(***************************************************************************)
EXTENDS Wide, FiniteSets, TLC

MinParts == WI(128)
EntrySize == WI(128)
Nil == "00000000000000000000000000000000"

Some(x) == <<x>>
None == <<>>

-----------------------------------------------------------------------------
(* Entries and tables *)

IsUsed(e) == e.t # Nil
UsedOf(ps) == SelectSeq(ps, IsUsed)

Has(ps, id) == \E i \in DOMAIN ps : ps[i].id = id
Get(ps, id) == ps[CHOOSE i \in DOMAIN ps : ps[i].id = id]
Without(ps, id) == SelectSeq(ps, LAMBDA e : e.id # id)
\* put an entry into a table, replacing the one with its number
Put(ps, e) == SelectSeq(ps, LAMBDA x : WLt(x.id, e.id)) \o <<e>>
              \o SelectSeq(ps, LAMBDA x : WLt(e.id, x.id))
HighestId(ps) == IF ps = <<>> THEN W0 ELSE ps[Len(ps)].id

\* the blocks an entry in use covers; on a damaged table last might precede first
Lo(e) == WMin(e.f, e.l)
Hi(e) == WMax(e.f, e.l)
Overlap(e1, e2) == WLe(Lo(e1), Hi(e2)) /\ WLe(Lo(e2), Hi(e1))
Covers(ps, b) == \E i \in DOMAIN ps : IsUsed(ps[i]) /\ WLe(Lo(ps[i]), b) /\ WLe(b, Hi(ps[i]))

-----------------------------------------------------------------------------
(* Names: at most 36 UTF-16 code units are stored, padded with zeros; what   *)
(* is not valid UTF-16 (a pair cut in half) reads as U+FFFD.                *)

IsHigh(u) == u >= 55296 /\ u <= 56319
IsLow(u) == u >= 56320 /\ u <= 57343
RECURSIVE LossyFrom(_, _, _)
LossyFrom(us, i, acc) ==
  IF i > Len(us) THEN acc
  ELSE IF IsHigh(us[i]) /\ i < Len(us) /\ IsLow(us[i + 1])
       THEN LossyFrom(us, i + 2, acc \o <<us[i], us[i + 1]>>)
  ELSE IF IsHigh(us[i]) \/ IsLow(us[i]) THEN LossyFrom(us, i + 1, Append(acc, 65533))
  ELSE LossyFrom(us, i + 1, Append(acc, us[i]))
RECURSIVE ToNul(_, _)
ToNul(us, i) == IF i > Len(us) \/ us[i] = 0 THEN SubSeq(us, 1, i - 1) ELSE ToNul(us, i + 1)
\* the code units that are stored for a name
StoredName(us) == IF Len(us) > 36 THEN SubSeq(us, 1, 36) ELSE us
\* the name that is read from stored code units
ReadName(us) == LET z == ToNul(us, 1) IN
                IF \E i \in DOMAIN z : IsHigh(z[i]) \/ IsLow(z[i])
                THEN LossyFrom(z, 1, <<>>) ELSE z
NormName(us) == ReadName(StoredName(us))

\* what reading the written entries of a table gives (OS is the label of a type)
Normalized(ps, OS(_)) ==
  LET us == UsedOf(ps) IN
  [i \in DOMAIN us |-> [us[i] EXCEPT !.n = NormName(us[i].n), !.os = OS(us[i].t)]]
\* the same, without the operating system label
Bare(ps) == LET us == UsedOf(ps) IN
  [i \in DOMAIN us |-> [us[i] EXCEPT !.n = NormName(us[i].n), !.os = ""]]

-----------------------------------------------------------------------------
(* Free space *)

\* ascending by first, then last block
RangeLt(x, y) == WLt(x[1], y[1]) \/ (x[1] = y[1] /\ WLt(x[2], y[2]))
RECURSIVE Sweep(_, _, _, _)
Sweep(rs, s, lu, acc) ==     \* s: the first block not yet known to be used
  IF WLt(lu, s) THEN acc
  ELSE IF rs = <<>> THEN Append(acc, <<s, WAdd(WSub(lu, s), W1)>>)
  ELSE LET r == Head(rs) IN
       IF WLt(r[2], s) THEN Sweep(Tail(rs), s, lu, acc)
       ELSE Sweep(Tail(rs), WAdd(r[2], W1), lu,
                  IF WLt(s, r[1])
                  THEN Append(acc, <<s, WAdd(WSub(WMin(lu, WSub(r[1], W1)), s), W1)>>)
                  ELSE acc)
FreeRuns(ps, fu, lu) ==
  LET us == UsedOf(ps)
      rs == SortSeq([i \in DOMAIN us |-> <<Lo(us[i]), Hi(us[i])>>], RangeLt)
  IN  Sweep(rs, fu, lu, <<>>)

\* the lowest block not below s that is a multiple of al
AlignUp(s, al) == IF al = None \/ al[1] = W0 THEN s
                  ELSE LET m == WMod(s, al[1]) IN
                       IF m = W0 THEN s ELSE WAdd(s, WSub(al[1], m))
RunFits(r, n, al) == WLe(WAdd(AlignUp(r[1], al), n), WAdd(r[1], r[2]))
RECURSIVE FirstFit(_, _, _)
FirstFit(runs, n, al) ==   \* Some(first block) or None
  IF runs = <<>> THEN None
  ELSE IF RunFits(Head(runs), n, al) THEN Some(AlignUp(Head(runs)[1], al))
  ELSE FirstFit(Tail(runs), n, al)
InSomeRun(runs, f, n) == \E i \in DOMAIN runs :
  WLe(runs[i][1], f) /\ WLe(WAdd(f, n), WAdd(runs[i][1], runs[i][2]))

-----------------------------------------------------------------------------
(* Partition numbers, alignment *)

RECURSIVE LowestFrom(_, _)
LowestFrom(us, c) == IF us = <<>> THEN c
                     ELSE IF Head(us).id = c THEN LowestFrom(Tail(us), WAdd(c, W1))
                     ELSE IF WLt(Head(us).id, c) THEN LowestFrom(Tail(us), c) ELSE c
LowestFree(ps) == LowestFrom(UsedOf(ps), W1)
NextId(ps, np) == LET c == LowestFree(ps) IN IF WLe(c, np) THEN Some(c) ELSE None

RECURSIVE LowBit(_, _)
LowBit(m, p) == IF (m \div p) % 2 = 1 THEN p ELSE LowBit(m, 2 * p)
Pow2Of(f) == LET m == WModI(f, 2048) IN IF m = 0 THEN 2048 ELSE LowBit(m, 1)
RECURSIVE MinPow(_, _)
MinPow(us, acc) == IF us = <<>> THEN acc
                   ELSE LET p == Pow2Of(Head(us).f) IN
                        MinPow(Tail(us), IF p < acc THEN p ELSE acc)
Alignment(ps) == IF ps = <<>> THEN W0 ELSE WI(MinPow(UsedOf(ps), 2048))

-----------------------------------------------------------------------------
(* Sizes and offsets of a partition: Some(exact value), or None when the     *)
(* value does not exist or does not fit 64 bits                             *)

Only64(x) == IF Fits64(x) THEN Some(x) ELSE None
SectorsLen(f, l) == IF WLt(l, f) THEN None ELSE Only64(WAdd(WSub(l, f), W1))
BytesLen(f, l, lbs) == LET s == SectorsLen(f, l) IN
                       IF s = None THEN None ELSE Only64(WMulI(s[1], lbs))
BytesStart(f, lbs) == Only64(WMulI(f, lbs))

-----------------------------------------------------------------------------
(* Headers *)

Bad(kind) == [ok |-> FALSE, err |-> kind]
\* the number of blocks an entry array takes
ArrayBlocks(np, es, lbs) == WCeilI(WMul(np, es), lbs)

\* A header builder: primary and backup position, requested usable range
NewBuilder(g) == [prim |-> TRUE, g |-> g, plba |-> W1, blba |-> W0,
                  fu |-> W0, lu |-> W0, np |-> MinParts, es |-> EntrySize]
IsPrimary(h) == WLt(h.cur, h.bak) \/ h.bak = W0
FromHeader(h) ==
  [prim |-> IsPrimary(h), g |-> h.g,
   plba |-> IF IsPrimary(h) THEN h.cur ELSE h.bak,
   blba |-> IF IsPrimary(h) THEN h.bak ELSE h.cur,
   fu |-> h.fu, lu |-> h.lu, np |-> h.np, es |-> h.es]

Build(x, lbs) ==
  LET ab  == ArrayBlocks(x.np, x.es, lbs)
      cfu == WAdd(WAdd(x.plba, W1), ab)
      fu  == WMax(x.fu, cfu)
      clu == WSub(x.blba, WAdd(ab, W1))
      lu  == IF x.lu = W0 THEN clu ELSE WMin(x.lu, clu)
  IN  IF WLt(x.blba, x.plba) THEN Bad("MissingBackupLba")
      ELSE IF ~Fits64(cfu) THEN Bad("Overflow")
      ELSE IF WLt(x.blba, WAdd(ab, W1)) THEN Bad("BackupLbaToEarly")
      ELSE IF WLt(lu, fu) THEN Bad("BackupLbaToEarly")
      ELSE [ok |-> TRUE, sig |-> TRUE, rev |-> <<1, 0>>, hs |-> WI(92),
            cur |-> IF x.prim THEN x.plba ELSE x.blba,
            bak |-> IF x.prim THEN x.blba ELSE x.plba,
            fu |-> fu, lu |-> lu, g |-> x.g,
            ps |-> IF x.prim THEN WAdd(x.plba, W1) ELSE WAdd(lu, W1),
            np |-> x.np, es |-> x.es]

\* the header the object works with
Hdr(d) == IF d.p.ok THEN d.p ELSE d.b
HasHdr(d) == d.p.ok \/ d.b.ok
FreeOf(d) == FreeRuns(d.parts, Hdr(d).fu, Hdr(d).lu)

\* The headers for a table with room for number n, on a device of nb blocks.
\* The number of entries never shrinks.
InitHeaders(d, n, nb) ==
  LET x == IF HasHdr(d) THEN FromHeader(Hdr(d)) ELSE NewBuilder(d.g)
      np == WMax(WMax(IF HasHdr(d) THEN Hdr(d).np ELSE W0, n), MinParts)
      p == Build([x EXCEPT !.np = np, !.blba = WSub(nb, W1), !.lu = W0, !.g = d.g,
                           !.prim = TRUE], d.c.lbs)
      b == IF p.ok THEN Build([FromHeader(p) EXCEPT !.prim = FALSE], d.c.lbs) ELSE p
  IN  IF WLt(nb, W3) THEN [ok |-> FALSE, d |-> d]
      ELSE IF ~p.ok \/ (~d.c.rob /\ ~b.ok) THEN [ok |-> FALSE, d |-> d]
      ELSE [ok |-> TRUE, d |-> [d EXCEPT !.p = p, !.b = IF d.c.rob THEN d.b ELSE b]]

\* the number of entries a table for the highest number n needs
NeededParts(np, n) == WMax(WMax(np, n), MinParts)
CountChanges(d, n) == NeededParts(Hdr(d).np, n) # Hdr(d).np

\* The headers a write puts on the device.  With a read-only backup the main header
\* keeps pointing to where the backup was, but the table has to fit on the device as it is.
WriteHeaders(d, nb) ==
  LET x == FromHeader(Hdr(d))
      p == Build([x EXCEPT !.blba = IF d.c.rob THEN x.blba ELSE WSub(nb, W1),
                           !.lu = W0, !.g = d.g, !.prim = TRUE], d.c.lbs)
      b == IF p.ok THEN Build([FromHeader(p) EXCEPT !.prim = FALSE], d.c.lbs) ELSE p
      here == IF d.c.rob THEN Build([x EXCEPT !.blba = WSub(nb, W1), !.lu = W0], d.c.lbs)
              ELSE p
  IN  IF WLt(nb, W3) THEN [ok |-> FALSE, d |-> d]
      ELSE IF ~p.ok \/ ~here.ok \/ (~d.c.rob /\ ~b.ok) THEN [ok |-> FALSE, d |-> d]
      ELSE [ok |-> TRUE, d |-> [d EXCEPT !.p = p, !.b = IF d.c.rob THEN d.b ELSE b]]

-----------------------------------------------------------------------------
(* The areas of the disk *)

LastOfArray(h, lbs) == WSub(WAdd(h.ps, ArrayBlocks(h.np, h.es, lbs)), W1)
\* protective MBR, header, array, usable blocks: disjoint and in this order
PrimarySideOk(h, lbs) ==
  /\ WLt(W0, h.cur) /\ WLt(h.cur, h.ps)
  /\ WLt(LastOfArray(h, lbs), h.fu)
  /\ WLe(h.fu, h.lu)
\* usable blocks, array, header: disjoint, in this order, ending at block `last'
BackupSideOk(h, last, lbs) ==
  /\ WLe(h.fu, h.lu) /\ WLt(h.lu, h.ps)
  /\ WLt(LastOfArray(h, lbs), h.cur)
  /\ h.cur = last
\* there is room for the backup array and header behind the usable blocks
RoomForBackup(h, lbs) ==
  WLe(WAdd(WAdd(h.lu, ArrayBlocks(h.np, h.es, lbs)), W1), h.bak)
\* the blocks of a copy: its header and its array
InCopy(b, h, lbs) == b = h.cur \/ (WLe(h.ps, b) /\ WLe(b, LastOfArray(h, lbs)))
RangeInCopy(r, h, lbs) ==   \* r = <<first block, number of blocks>>
  \/ (r[1] = h.cur /\ r[2] = W1)
  \/ (WLe(h.ps, r[1]) /\ WLe(WSub(WAdd(r[1], r[2]), W1), LastOfArray(h, lbs)))
  \* a header next to its array: one run of changed blocks can hold both
  \/ (WAdd(h.cur, W1) = h.ps /\ r[1] = h.cur
      /\ WLe(WSub(WAdd(r[1], r[2]), W1), LastOfArray(h, lbs)))
  \/ (WAdd(LastOfArray(h, lbs), W1) = h.cur /\ WLe(h.ps, r[1])
      /\ WLe(WSub(WAdd(r[1], r[2]), W1), h.cur))

-----------------------------------------------------------------------------
(* What is on the device: a view of a header position.                      *)
(*   [ex |-> FALSE]: the block does not exist, otherwise                     *)
(*   [ex |-> TRUE, h |-> header fields (h.sig: signature right), crc: header  *)
(*    checksum right, rz: rest of the block zero, rd: array can be read,      *)
(*    ac: array checksum right, ents: the array's entries that are not zero]  *)

HdrOk(v) == v.ex /\ v.h.sig /\ v.crc
Intact(v) == HdrOk(v) /\ v.h.es = EntrySize /\ v.rd /\ v.ac
SameHeader(h, v) == h.ok /\ v.ex /\ h.cur = v.h.cur /\ h.bak = v.h.bak /\ h.fu = v.h.fu
                    /\ h.lu = v.h.lu /\ h.g = v.h.g /\ h.ps = v.h.ps /\ h.np = v.h.np
                    /\ h.es = v.h.es

-----------------------------------------------------------------------------
(* Operations.  An outcome is [r |-> "ok" or the kind of error, v |-> value,  *)
(* d |-> disk afterwards]; a failed operation leaves the disk as it was.      *)

Out(r, v, d) == [r |-> r, v |-> v, d |-> d]

\* the size in blocks of a partition of `size' bytes
BlocksFor(size, lbs) == WCeilI(size, lbs)

DoCreate(c, g, nb) ==
  LET d0 == [c |-> c, g |-> g, p |-> Bad("InvalidGptSignature"),
             b |-> Bad("InvalidGptSignature"), parts |-> <<>>]
      i == InitHeaders(d0, W0, nb)
  IN  IF i.ok THEN Out("ok", None, i.d) ELSE Out("Header", None, d0)

\* opening takes the primary copy if it is intact, else the backup copy
ViewHeader(v) == IF HdrOk(v) THEN [v.h EXCEPT !.ok = TRUE] ELSE Bad("damaged")
DoOpen(c, m) ==
  LET fail == [r |-> "Err"]
      from(v, p, b) == [r |-> "ok", from |-> v,
                        d |-> [c |-> c, g |-> v.h.g, p |-> p, b |-> b, parts |-> v.ents]]
  IN  IF c.ov /\ (~HdrOk(m.p) \/ ~HdrOk(m.b)) THEN fail
      ELSE IF Intact(m.p) THEN from(m.p, ViewHeader(m.p), ViewHeader(m.b))
      ELSE IF c.ov THEN fail
      ELSE IF Intact(m.b) THEN from(m.b, Bad("damaged"), ViewHeader(m.b))
      ELSE fail

\* put an entry into the table, growing it if its number asks for it
Enter(d, e, nb) ==
  IF ~CountChanges(d, e.id) THEN Out("ok", Some(e.id), [d EXCEPT !.parts = Put(@, e)])
  ELSE IF ~d.c.cpc THEN Out("PartitionCountWouldChange", None, d)
  ELSE LET i == InitHeaders(d, e.id, nb) IN
       IF i.ok THEN Out("ok", Some(e.id), [i.d EXCEPT !.parts = Put(@, e)])
       ELSE Out("Header", None, d)

\* a: [n, size, t, os, a, al, u]; al is Some(alignment) or None
DoAdd(d, a, nb) ==
  LET n == BlocksFor(a.size, d.c.lbs)
      fit == FirstFit(FreeOf(d), n, a.al)
      id == LowestFree(d.parts)
  IN  IF fit = None THEN Out("NotEnoughSpace", None, d)
      ELSE Enter(d, [id |-> id, t |-> a.t, os |-> a.os, u |-> a.u, f |-> fit[1],
                     l |-> WSub(WAdd(fit[1], n), W1), a |-> a.a, n |-> a.n], nb)

\* a: [n, id, f, len, t, os, a, u]
DoAddAt(d, a, nb) ==
  IF Has(d.parts, a.id) /\ IsUsed(Get(d.parts, a.id))
  THEN Out("PartitionIdAlreadyUsed", None, d)
  ELSE IF ~InSomeRun(FreeOf(d), a.f, a.len) THEN Out("NotEnoughSpace", None, d)
  ELSE Enter(d, [id |-> a.id, t |-> a.t, os |-> a.os, u |-> a.u, f |-> a.f,
                 l |-> WSub(WAdd(a.f, a.len), W1), a |-> a.a, n |-> a.n], nb)

DoRemove(d, id) == IF Has(d.parts, id)
                   THEN Out("ok", Some(id), [d EXCEPT !.parts = Without(@, id)])
                   ELSE Out("ok", None, d)
FirstWithGuid(ps, u) ==
  LET s == SelectSeq(ps, LAMBDA e : e.u = u) IN IF s = <<>> THEN None ELSE Some(s[1].id)
DoRemoveGuid(d, u) == LET i == FirstWithGuid(d.parts, u) IN
                      IF i = None THEN Out("ok", None, d) ELSE DoRemove(d, i[1])
DoTake(d) == Out("ok", d.parts, [d EXCEPT !.parts = <<>>])
DoUpdate(d, ps, nb) ==
  IF CountChanges(d, HighestId(ps)) /\ ~d.c.cpc
  THEN Out("PartitionCountWouldChange", None, d)
  ELSE LET i == InitHeaders(d, HighestId(ps), nb) IN
       IF i.ok THEN Out("ok", None, [i.d EXCEPT !.parts = ps]) ELSE Out("Header", None, d)
DoSetGuid(d, g) == Out("ok", None, [d EXCEPT !.g = g])

\* the view a written header gives
Written(h, ents) == [ex |-> TRUE, h |-> h, crc |-> TRUE, rz |-> TRUE, rd |-> TRUE,
                     ac |-> TRUE, ents |-> ents]
\* the outcome of a write, with the medium afterwards
DoWrite(d, m) ==
  LET w == WriteHeaders(d, m.nb)
      ents == Bare(d.parts)
  IN  IF ~d.c.wr THEN [r |-> "ReadOnly", d |-> d, m |-> m]
      ELSE IF ~w.ok THEN [r |-> "Header", d |-> d, m |-> m]
      ELSE [r |-> "ok", d |-> w.d,
            m |-> [m EXCEPT !.p = Written(w.d.p, ents),
                            !.b = IF d.c.rob THEN @ ELSE Written(w.d.b, ents)]]

\* switching to another device (or re-targeting a copy) sets the writable flag
DoSwitch(d, wr) == [d EXCEPT !.c.wr = wr]

-----------------------------------------------------------------------------
(* Growth: the blocks that become reserved when the headers of d change to   *)
(* those of e, as a predicate on entries in use                             *)

Reserved(x, h) == WLt(Lo(x), h.fu) \/ WLt(h.lu, Hi(x))
InUsable(x, h) == WLe(h.fu, Lo(x)) /\ WLe(Hi(x), h.lu)
\* entries that were inside the usable range of h1 and are not inside that of h2
Swallowed(ps, h1, h2) == {i \in DOMAIN ps : IsUsed(ps[i]) /\ InUsable(ps[i], h1)
                                                /\ Reserved(ps[i], h2)}
=============================================================================
