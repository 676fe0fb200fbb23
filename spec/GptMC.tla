-------------------------------- MODULE GptMC --------------------------------
(***************************************************************************)
(* Model checking of Gpt.tla on small devices.                              *)
(*                                                                         *)
(* The state is what exists in a program that uses the crate: disk objects   *)
(* by handle, and devices.  The actions are the operations of the API with    *)
(* the arguments the constants allow, and damage to what is on a device.      *)
(* The properties are stated without the operators that compute the           *)
(* outcomes: over sets of blocks and numbers, or between what is written and  *)
(* what is read.                                                             *)
(*                                                                         *)
(* Every transition is printed with its command (Emit); the histories that     *)
(* lib/walks.py makes of them, which together take every transition, are       *)
(* executed by the real crate and checked by Monitor.tla.                      *)
(***************************************************************************)
EXTENDS Gpt, TLCExt, Integers

CONSTANTS
  Lbs,        \* block size
  Sizes,      \* device -> number of blocks
  Handles,    \* handles in use
  Confs,      \* configurations [wr, ov, rob, cpc] to create and open with
  CreateOn,   \* devices to create on
  Adds,       \* arguments of add: [blk |-> blocks, al |-> None or Some(alignment)]
  Ats,        \* arguments of addat: <<number, first, length>>
  Rms,        \* numbers to remove
  Maps,       \* maps to install: sequences of <<number, first, last, used>>
  Guids,      \* disk GUIDs to set and create with
  Losses,     \* how far a write got when the power was lost: subset of {"t1", "n1", "t2"}
  Damages,    \* what can be damaged: subset of {"ph", "pa", "bh", "ba"}
  Swaps,      \* <<device, writable>> to switch to or re-target a copy to
  Clones,     \* devices which a clone is made on
  Grow,       \* FALSE: a growth that would take blocks of partitions is refused
  Max         \* at most so many partitions

VARIABLES os,     \* handle -> None or Some([d |-> disk object, k |-> device])
          md,     \* device -> medium
          ex,     \* device -> what the last write put there, None if unknown
          last    \* the last operation (not part of the state)
vars == <<os, md, ex, last>>
View == <<os, md, ex>>

NoView == [ex |-> TRUE, h |-> [sig |-> FALSE], crc |-> FALSE, rz |-> FALSE, rd |-> FALSE,
           ac |-> FALSE, ents |-> <<>>]
Live == {x \in Handles : os[x] # None}
DiskOf(x) == os[x][1].d
DevOf(x) == os[x][1].k
NbOf(x) == md[DevOf(x)].nb
Conf(c) == c @@ [lbs |-> Lbs]
TypeX == "0fc63daf84834772" \o "8e793d69d8477de4"     \* Linux file system
U(i) == CASE i = 1 -> "11111111111111111111111111111111"
          [] i = 2 -> "22222222222222222222222222222222"
          [] OTHER -> "33333333333333333333333333333333"
Entry(id, f, l, used, u) ==
  [id |-> WI(id), t |-> IF used THEN TypeX ELSE Nil, os |-> "", u |-> u,
   f |-> WI(f), l |-> WI(l), a |-> "0000000000000000", n |-> <<>>]
TableOf(mp) == [j \in DOMAIN mp |-> Entry(mp[j][1], mp[j][2], mp[j][3], mp[j][4], U(mp[j][1]))]
Lib == "library"           \* the unique GUID of an entry the library made

\* commands for the harness
S(n) == ToString(n)
B01(b) == IF b THEN "1" ELSE "0"
CfgText(c) == " lbs=" \o S(Lbs) \o " wr=" \o B01(c.wr) \o " ov=" \o B01(c.ov)
              \o " rob=" \o B01(c.rob) \o " cpc=" \o B01(c.cpc)
RECURSIVE MapText(_)
MapText(mp) == IF mp = <<>> THEN ""
  ELSE S(mp[1][1]) \o "/" \o (IF mp[1][4] THEN TypeX ELSE Nil) \o "/" \o U(mp[1][1])
       \o "/" \o S(mp[1][2]) \o "/" \o S(mp[1][3]) \o "/0/" \o ";" \o MapText(Tail(mp))

\* the operation an action performs: on handle x, with result r and value v
Op(op, x, cmd, r, v, a) == last' = [op |-> op, x |-> x, cmd |-> cmd, r |-> r, v |-> v, a |-> a]
Put1(x, d) == os' = [os EXCEPT ![x] = Some([@[1] EXCEPT !.d = d])]
Bounded(d) == Len(UsedOf(d.parts)) <= Max

\* a growth that takes blocks from partitions (the known finding C27)
Takes(d, s) == s.r = "ok" /\ HasHdr(d) /\ Hdr(d).np # Hdr(s.d).np
               /\ Swallowed(s.d.parts, Hdr(d), Hdr(s.d)) # {}
Guarded(d, s) == IF ~Grow /\ Takes(d, s) THEN Out("NotEnoughSpace", None, d) ELSE s

-----------------------------------------------------------------------------

\* a handle that is made or opened again: the old object is dropped first
Fresh(x) == IF os[x] = None THEN "" ELSE "drop " \o x \o "|"

Create(x, k, c, g) ==
  LET s == DoCreate(Conf(c), g, md[k].nb) IN
  /\ os' = [os EXCEPT ![x] = IF s.r = "ok" THEN Some([d |-> s.d, k |-> k]) ELSE None]
  /\ Op("create", x, Fresh(x) \o "create " \o x \o " " \o k \o CfgText(c) \o " g=" \o g,
        s.r, None, [c |-> c, g |-> g])
  /\ UNCHANGED <<md, ex>>

Open(x, k, c) ==
  LET s == DoOpen(Conf(c), md[k]) IN
  /\ os' = [os EXCEPT ![x] = IF s.r = "ok" THEN Some([d |-> s.d, k |-> k]) ELSE None]
  /\ Op("open", x, Fresh(x) \o "open " \o x \o " " \o k \o CfgText(c), s.r, None,
        [c |-> c, k |-> k])
  /\ UNCHANGED <<md, ex>>

Drop(x) ==
  /\ os' = [os EXCEPT ![x] = None]
  /\ Op("drop", x, "drop " \o x, "ok", None, <<>>)
  /\ UNCHANGED <<md, ex>>

Add(x, a) ==
  LET d == DiskOf(x)
      s == Guarded(d, DoAdd(d, [size |-> WI(a.blk * Lbs), al |-> a.al, t |-> TypeX, os |-> "",
                                a |-> "0000000000000000", n |-> <<>>, u |-> Lib], NbOf(x)))
  IN  /\ Bounded(s.d)
      /\ Put1(x, s.d)
      /\ Op("add", x, "add " \o x \o " size=" \o S(a.blk * Lbs) \o " t=" \o TypeX \o " a=0 n= al="
                      \o (IF a.al = None THEN "-" ELSE S(ToI(a.al[1]))), s.r, s.v, a)
      /\ UNCHANGED <<md, ex>>

AddAt(x, a) ==
  LET d == DiskOf(x)
      s == Guarded(d, DoAddAt(d, [id |-> WI(a[1]), f |-> WI(a[2]), len |-> WI(a[3]), t |-> TypeX,
                                  os |-> "", a |-> "0000000000000000", n |-> <<>>, u |-> Lib],
                              NbOf(x)))
  IN  /\ Bounded(s.d)
      /\ Put1(x, s.d)
      /\ Op("addat", x, "addat " \o x \o " id=" \o S(a[1]) \o " f=" \o S(a[2]) \o " len="
                        \o S(a[3]) \o " t=" \o TypeX \o " a=0 n=", s.r, s.v, a)
      /\ UNCHANGED <<md, ex>>

Remove(x, id) ==
  LET s == DoRemove(DiskOf(x), WI(id)) IN
  /\ Put1(x, s.d)
  /\ Op("rm", x, "rm " \o x \o " id=" \o S(id), s.r, s.v, id)
  /\ UNCHANGED <<md, ex>>

RemoveGuid(x, i) ==
  LET s == DoRemoveGuid(DiskOf(x), U(i)) IN
  /\ Put1(x, s.d)
  /\ Op("rmg", x, "rmg " \o x \o " g=" \o U(i), s.r, s.v, U(i))
  /\ UNCHANGED <<md, ex>>

Take(x) ==
  LET s == DoTake(DiskOf(x)) IN
  /\ Put1(x, s.d)
  /\ Op("take", x, "take " \o x, s.r, s.v, <<>>)
  /\ UNCHANGED <<md, ex>>

Update(x, mp) ==
  LET d == DiskOf(x)
      s == Guarded(d, DoUpdate(d, TableOf(mp), NbOf(x))) IN
  /\ Put1(x, s.d)
  /\ Op("upd", x, "upd " \o x \o " base=0 set=" \o MapText(mp), s.r, s.v, mp)
  /\ UNCHANGED <<md, ex>>

SetGuid(x, g) ==
  /\ Put1(x, DoSetGuid(DiskOf(x), g).d)
  /\ Op("setg", x, "setg " \o x \o " g=" \o g, "ok", None, g)
  /\ UNCHANGED <<md, ex>>

Write(x) ==
  LET d == DiskOf(x)
      k == DevOf(x)
      s == DoWrite(d, md[k])
      fits == WLe(HighestId(UsedOf(d.parts)), Hdr(d).np)
      r == IF s.r = "ok" /\ ~fits THEN "OverflowPartitionCount" ELSE s.r
  IN  /\ IF r = "ok"
         THEN /\ Put1(x, s.d)
              /\ md' = [md EXCEPT ![k] = s.m]
              /\ ex' = [ex EXCEPT ![k] = Some([g |-> d.g, ents |-> Bare(d.parts)])]
         ELSE UNCHANGED <<os, md, ex>>
      /\ Op("write", x, "write " \o x, r, None, <<>>)

Swap(x, k, w) ==
  /\ os' = [os EXCEPT ![x] = Some([d |-> DoSwitch(@[1].d, w), k |-> k])]
  /\ Op("swap", x, "swap " \o x \o " " \o k \o " wr=" \o B01(w), "ok", None, k)
  /\ UNCHANGED <<md, ex>>

Retarget(x, y, k, w) ==
  /\ os[y] = None
  /\ os' = [os EXCEPT ![y] = Some([d |-> DoSwitch(DiskOf(x), w), k |-> k])]
  /\ Op("retgt", x, "retgt " \o x \o " " \o y \o " " \o k \o " wr=" \o B01(w), "ok", None, y)
  /\ UNCHANGED <<md, ex>>

\* a clone has a copy of the device
Clone(x, y, k) ==
  /\ os[y] = None
  /\ \A z \in Live : DevOf(z) # k
  /\ os' = [os EXCEPT ![y] = Some([d |-> DiskOf(x), k |-> k])]
  /\ md' = [md EXCEPT ![k] = md[DevOf(x)]]
  /\ ex' = [ex EXCEPT ![k] = ex[DevOf(x)]]
  /\ Op("clone", x, "undev " \o k \o "|clone " \o x \o " " \o y \o " " \o k, "ok", None, y)

\* a flipped bit: of the header's checksum field, or in the first entry of the array
Flip(k, at) == "flip " \o k \o " " \o S(at) \o " 1"
Damage(k, what) ==
  LET m == md[k]
      last1 == ToI(m.nb) - 1
      bad(v, h) == IF h THEN [v EXCEPT !.crc = FALSE] ELSE [v EXCEPT !.ac = FALSE]
  IN  /\ CASE what = "ph" -> HdrOk(m.p) [] what = "bh" -> HdrOk(m.b)
           [] what = "pa" -> Intact(m.p) [] what = "ba" -> Intact(m.b)
      /\ md' = [md EXCEPT ![k] =
                  CASE what = "ph" -> [m EXCEPT !.p = bad(@, TRUE)]
                    [] what = "bh" -> [m EXCEPT !.b = bad(@, TRUE)]
                    [] what = "pa" -> [m EXCEPT !.p = bad(@, FALSE)]
                    [] what = "ba" -> [m EXCEPT !.b = bad(@, FALSE)]]
      /\ ex' = [ex EXCEPT ![k] = IF Intact(md'[k].p) \/ Intact(md'[k].b) THEN @ ELSE None]
      /\ Op("damage", "", Flip(k,
              CASE what = "ph" -> Lbs + 16
                [] what = "bh" -> last1 * Lbs + 16
                [] what = "pa" -> ToI(m.p.h.ps) * Lbs + 3
                [] what = "ba" -> ToI(m.b.h.ps) * Lbs + 3), "ok", None, k)
      /\ UNCHANGED os

\* A power loss during a write.  One copy is written after the other; the one that is written
\* first is the one that is damaged, if only one is.  t1: while the first copy is written,
\* n1: between the copies, t2: while the second copy is written.
PrimaryFirst(d, m) == d.c.rob \/ (Intact(m.b) /\ ~Intact(m.p))
Torn(v, w) == IF Intact(v) /\ v.ents # w.ents THEN [v EXCEPT !.ac = FALSE]
              ELSE IF Intact(v) THEN v ELSE [v EXCEPT !.crc = FALSE]
Lose(x, c) ==
  LET d == DiskOf(x)
      k == DevOf(x)
      m == md[k]
      s == DoWrite(d, m)
      pf == PrimaryFirst(d, m)
      two == ~d.c.rob
      tp == Torn(m.p, s.m.p)
      tb == Torn(m.b, s.m.b)
      m2 == CASE c = "t1" -> IF pf THEN [m EXCEPT !.p = tp] ELSE [m EXCEPT !.b = tb]
              [] c = "n1" -> IF pf THEN [m EXCEPT !.p = s.m.p] ELSE [m EXCEPT !.b = s.m.b]
              [] c = "t2" -> IF pf THEN [s.m EXCEPT !.b = tb] ELSE [s.m EXCEPT !.p = tp]
      want == CASE c = "t1" -> IF pf THEN "to" ELSE "ot"
                [] c = "n1" -> IF pf THEN "no" ELSE "on"
                [] c = "t2" -> IF pf THEN "nt" ELSE "tn"
      got == DoOpen(Conf([wr |-> FALSE, ov |-> FALSE, rob |-> FALSE, cpc |-> FALSE]), m2)
  IN  /\ s.r = "ok"
      /\ c = "t1" \/ two
      /\ os' = [y \in Handles |-> IF os[y] # None /\ DevOf(y) = k THEN None ELSE os[y]]
      /\ md' = [md EXCEPT ![k] = m2]
      /\ ex' = [ex EXCEPT ![k] = IF got.r = "ok"
                                 THEN Some([g |-> got.d.g, ents |-> Bare(got.d.parts)])
                                 ELSE None]
      /\ Op("lose", x, "write " \o x \o " crash=1 seed=" \o S(TLCFP(View) % 1000)
                       \o "|power " \o k \o " seed=" \o S(TLCFP(View) % 100000)
                       \o " want=" \o want, "ok", None, d)

-----------------------------------------------------------------------------

Devs == DOMAIN Sizes
Init == /\ os = [x \in Handles |-> None]
        /\ md = [k \in Devs |-> [nb |-> WI(Sizes[k]), p |-> NoView, b |-> NoView]]
        /\ ex = [k \in Devs |-> None]
        /\ last = [op |-> "init", x |-> "", cmd |-> "", r |-> "ok", v |-> None, a |-> <<>>]

Main == "h"
Next ==
  \/ \E c \in Confs :
       \/ \E k \in CreateOn, g \in Guids : Create(Main, k, c, g)
       \/ \E k \in Devs : (ex[k] # None \/ HdrOk(md[k].p) \/ HdrOk(md[k].b)) /\ Open(Main, k, c)
  \/ \E x \in Live :
       \/ \E a \in Adds : Add(x, a)
       \/ \E a \in Ats : AddAt(x, a)
       \/ \E id \in Rms : Remove(x, id) \/ (Maps # {} /\ id <= 3 /\ RemoveGuid(x, id))
       \/ (Rms # {} /\ Take(x))
       \/ \E mp \in Maps : Update(x, mp)
       \/ \E g \in Guids : SetGuid(x, g)
       \/ Write(x)
       \/ \E c \in Losses : Lose(x, c)
       \/ \E s \in Swaps : (Cardinality(Handles) = 1 /\ s[1] # DevOf(x) /\ Swap(x, s[1], s[2]))
       \/ \E y \in Handles \ {x} : \/ \E s \in Swaps : Retarget(x, y, s[1], s[2])
                                   \/ \E k \in Clones : Clone(x, y, k)
       \/ (x # Main /\ Drop(x))
  \/ \E k \in Devs, w \in Damages : Damage(k, w)
Spec == Init /\ [][Next]_vars

\* prints every transition with its command
Fp(v) == S(TLCFP(v)) \o "." \o S(TLCFP(<<v>>))
Emit == PrintT("EDGE " \o Fp(View) \o " " \o Fp(View') \o " " \o last'.cmd)
Quiet == TRUE

-----------------------------------------------------------------------------
(* The properties *)

Usable(h) == ToI(h.fu)..ToI(h.lu)
\* the blocks of an entry in use
Of(e) == (IF WLe(e.f, e.l) THEN ToI(e.f)..ToI(e.l) ELSE ToI(e.l)..ToI(e.f))
Taken(ps) == UNION {Of(e) : e \in {ps[j] : j \in {j \in DOMAIN ps : IsUsed(ps[j])}}}
FreeSet(d) == Usable(Hdr(d)) \ Taken(d.parts)
Numbers(ps) == {ToI(ps[j].id) : j \in {j \in DOMAIN ps : IsUsed(ps[j])}}
Lowest(ps) == CHOOSE n \in 1..(Len(ps) + 1) :
               n \notin Numbers(ps) /\ (1..(n - 1)) \subseteq Numbers(ps)
MinOf(s) == CHOOSE m \in s : \A n \in s : m <= n
ObjsOk(P(_)) == \A x \in Live : P(DiskOf(x))

\* C03: areas in order, disjoint, inside the disk; on new devices the space is used up
HeaderAreas(h, nb) ==
  LET arr == ToI(h.ps)..(ToI(h.ps) + (ToI(h.np) * ToI(h.es) + Lbs - 1) \div Lbs - 1)
      other == IF IsPrimary(h) THEN ToI(h.bak) ELSE ToI(h.cur)
      prim == IF IsPrimary(h) THEN ToI(h.cur) ELSE ToI(h.bak)
      n == Cardinality(arr)
  IN  /\ arr \cap Usable(h) = {} /\ Usable(h) # {}
      /\ prim = 1 /\ 1 \notin arr /\ 0 \notin arr /\ other \notin arr
      /\ ({0, 1, other} \cap Usable(h)) = {}
      /\ ToI(h.ps) * Lbs + ToI(WMul(h.np, h.es)) <= (IF IsPrimary(h) THEN ToI(h.fu) ELSE other) * Lbs
      /\ ToI(h.lu) + n < other
      /\ WLe(MinParts, h.np)
C03Layout ==
  /\ ObjsOk(LAMBDA d : d.p.ok => HeaderAreas(d.p, 0))
  /\ \A k \in Devs : LET m == md[k] IN
       /\ HdrOk(m.p) => HeaderAreas(m.p.h, m.nb)
       /\ HdrOk(m.b) => HeaderAreas(m.b.h, m.nb)
C03New == [][last'.op = "create" /\ last'.r = "ok" =>
             LET h == os'[Main][1].d.p
                 nb == ToI(md[os'[Main][1].k].nb)
             IN  Usable(h) = 6..(nb - 6) /\ ToI(h.bak) = nb - 1]_vars

\* C12: exactly the free blocks, as maximal runs in ascending order
C12Free == ObjsOk(LAMBDA d :
  LET runs == FreeOf(d)
      set(r) == ToI(r[1])..(ToI(r[1]) + ToI(r[2]) - 1)
  IN  /\ UNION {set(runs[j]) : j \in DOMAIN runs} = FreeSet(d)
      /\ \A j \in DOMAIN runs : runs[j][2] # W0
      /\ \A j \in 1..(Len(runs) - 1) : ToI(runs[j][1]) + ToI(runs[j][2]) < ToI(runs[j + 1][1]))

\* C10: the lowest block from which the partition fits
Feasible(d, a) == {b \in FreeSet(d) :
                     /\ a.al = None \/ a.al[1] = W0 \/ b % ToI(a.al[1]) = 0
                     /\ \A j \in 0..(a.blk - 1) : (b + j) \in FreeSet(d)}
C10Add == [][last'.op = "add" =>
  LET d == DiskOf(last'.x)
      d2 == os'[last'.x][1].d
      a == last'.a
      f == Feasible(d, a)
  IN  /\ (f = {} => last'.r = "NotEnoughSpace")
      /\ (last'.r = "NotEnoughSpace" => f = {} \/ ~Grow)
      /\ last'.r = "ok" =>
           LET e == Get(d2.parts, last'.v[1]) IN
           /\ Of(e) = MinOf(f)..(MinOf(f) + a.blk - 1)
           /\ Of(e) \cap Taken(d.parts) = {}]_vars

\* C11
C11At == [][last'.op = "addat" =>
  LET d == DiskOf(last'.x)
      d2 == os'[last'.x][1].d
      a == last'.a
      free == a[2]..(a[2] + a[3] - 1) \subseteq FreeSet(d)
      used == a[1] \in Numbers(d.parts)
  IN  /\ last'.r = "ok" => /\ free /\ ~used /\ last'.v = Some(WI(a[1]))
                           /\ Of(Get(d2.parts, WI(a[1]))) = a[2]..(a[2] + a[3] - 1)
      /\ (used \/ ~free => last'.r \in {"PartitionIdAlreadyUsed", "NotEnoughSpace"})
      /\ (last'.r = "PartitionIdAlreadyUsed" => used)
      /\ (last'.r = "NotEnoughSpace" => ~free \/ ~Grow)]_vars

\* C13: the lowest number that is not in use, all other entries kept
C13Number == [][last'.op \in {"add", "addat", "rm", "rmg", "write"} =>
  LET d == DiskOf(last'.x)
      d2 == os'[last'.x][1].d
      mine == IF last'.v # None /\ last'.r = "ok" THEN {last'.v[1]} ELSE {}
  IN  /\ (last'.op = "add" /\ last'.r = "ok") =>
           ToI(last'.v[1]) = Lowest(d.parts)
      /\ \A id \in (1..3) \cup {127, 128, 129, 130} : WI(id) \notin mine =>
           /\ Has(d2.parts, WI(id)) = Has(d.parts, WI(id))
           /\ Has(d.parts, WI(id)) => Get(d2.parts, WI(id)) = Get(d.parts, WI(id))]_vars
C13Next == ObjsOk(LAMBDA d : LET n == Lowest(d.parts) IN
             NextId(d.parts, Hdr(d).np) = IF WLe(WI(n), Hdr(d).np) THEN Some(WI(n)) ELSE None)

\* C14: the number of entries changes only with permission and never shrinks
C14Count == [][\A x \in Live :
  (os'[x] # None /\ last'.op \in {"add", "addat", "rm", "rmg", "take", "upd", "setg", "write"})
   => LET d == DiskOf(x)
          d2 == os'[x][1].d
      IN  /\ WLe(Hdr(d).np, Hdr(d2).np)
          /\ Hdr(d).np # Hdr(d2).np => d.c.cpc]_vars
C14Fits == ObjsOk(LAMBDA d : WLe(HighestId(UsedOf(d.parts)), Hdr(d).np))
C14Write == [][last'.op = "write" => last'.r # "OverflowPartitionCount"]_vars

\* C15: an operation which fails changes nothing
C15Fail == [][last'.op \notin {"create", "open"} /\ last'.r # "ok" => UNCHANGED View]_vars

\* C16
C16Remove == [][last'.op \in {"rm", "rmg", "take"} =>
  LET d == DiskOf(last'.x)
      d2 == os'[last'.x][1].d
      ids(ps) == {ps[j].id : j \in DOMAIN ps}
  IN  /\ [d EXCEPT !.parts = <<>>] = [d2 EXCEPT !.parts = <<>>]
      /\ last'.op = "take" => d2.parts = <<>> /\ last'.v = d.parts
      /\ last'.op = "rm" => /\ ids(d2.parts) = ids(d.parts) \ {WI(last'.a)}
                            /\ (last'.v = None) = (WI(last'.a) \notin ids(d.parts))
      /\ last'.op = "rmg" =>
           IF \E j \in DOMAIN d.parts : d.parts[j].u = last'.a
           THEN ids(d2.parts) = ids(d.parts) \ {last'.v[1]}
                /\ Get(d.parts, last'.v[1]).u = last'.a
           ELSE d2 = d /\ last'.v = None
      /\ Taken(d2.parts) \subseteq Taken(d.parts)]_vars
C16Update == [][last'.op = "upd" /\ last'.r = "ok" =>
  os'[last'.x][1].d.parts = TableOf(last'.a)]_vars

\* C17: what sets the disk GUID
C17Guid == [][\A x \in Live : os'[x] # None =>
  LET g2 == os'[x][1].d.g IN
  CASE last'.op = "setg" /\ last'.x = x -> g2 = last'.a
    [] last'.op = "create" /\ last'.x = x -> g2 = last'.a.g
    [] last'.op = "open" /\ last'.x = x -> g2 \in {md[last'.a.k].p.h.g : z \in
                                                    IF HdrOk(md[last'.a.k].p) THEN {1} ELSE {}}
                                            \cup {md[last'.a.k].b.h.g : z \in
                                                    IF HdrOk(md[last'.a.k].b) THEN {1} ELSE {}}
    [] OTHER -> g2 = DiskOf(x).g]_vars

\* C01, C02, C17: the device after a write
C02Write == [][last'.op = "write" /\ last'.r = "ok" =>
  LET d == DiskOf(last'.x)
      k == DevOf(last'.x)
      m == md'[k]
      n == m.nb
  IN  /\ d.c.wr
      /\ Intact(m.p) /\ m.p.h.cur = W1 /\ m.p.h.g = d.g
      /\ ~d.c.rob => /\ Intact(m.b) /\ m.b.h.cur = WSub(n, W1)
                     /\ m.p.h.bak = m.b.h.cur /\ m.b.h.bak = m.p.h.cur
                     /\ m.b.h.g = d.g /\ m.b.ents = m.p.ents
                     /\ m.b.h.fu = m.p.h.fu /\ m.b.h.lu = m.p.h.lu
                     /\ m.b.h.np = m.p.h.np /\ m.b.h.es = m.p.h.es
                     /\ HeaderAreas(m.p.h, n) /\ HeaderAreas(m.b.h, n)]_vars
\* what was written is read, as long as one copy is intact
Reads(c, k) == DoOpen(c, md[k])
Lax == Conf([wr |-> FALSE, ov |-> FALSE, rob |-> FALSE, cpc |-> FALSE])
Strict == [Lax EXCEPT !.ov = TRUE]
C01Read == \A k \in Devs : ex[k] # None =>
  LET s == Reads(Lax, k) IN
  s.r = "ok" /\ (\/ s.d.g = ex[k][1].g /\ Bare(s.d.parts) = ex[k][1].ents
                 \* the primary is damaged and the backup is an older, read-only one
                 \/ ~Intact(md[k].p) /\ Intact(md[k].b))
\* C08, C09: opening gives the table of an intact copy, the primary's if that is intact
C08Open == \A k \in Devs :
  LET m == md[k]
      s == Reads(Lax, k)
      t == Reads(Strict, k)
  IN  /\ (s.r = "ok") = (Intact(m.p) \/ Intact(m.b))
      /\ s.r = "ok" => s.d.parts = IF Intact(m.p) THEN m.p.ents ELSE m.b.ents
      /\ t.r = "ok" => HdrOk(m.p) /\ HdrOk(m.b) /\ s.r = "ok" /\ t.d.parts = s.d.parts
      /\ (Intact(m.p) /\ Intact(m.b)) => t.r = "ok"
C08Repair == [][last'.op = "write" /\ last'.r = "ok" /\ ~DiskOf(last'.x).c.rob =>
  Intact(md'[DevOf(last'.x)].p) /\ Intact(md'[DevOf(last'.x)].b)]_vars

\* C07: after a power loss, the table from before the write or the new one
C07Lose == [][last'.op = "lose" =>
  LET d == last'.a
      k == CHOOSE k \in Devs : md'[k] # md[k]
      m == md[k]
      old == {[g |-> v.h.g, ents |-> Bare(v.ents)] : v \in {v \in {m.p, m.b} : Intact(v)}}
      new == [g |-> d.g, ents |-> Bare(d.parts)]
  IN  (md' # md /\ old # {} /\ (~d.c.rob \/ Intact(m.b)))
        => /\ ex'[k] # None /\ ex'[k][1] \in old \cup {new}
           /\ Intact(md'[k].p) \/ Intact(md'[k].b)]_vars

\* C28: a write of what is on the device already changes nothing
C28Again == [][last'.op = "write" /\ last'.r = "ok" =>
  LET o == os'[last'.x][1]
      s == DoWrite(o.d, md'[o.k])
  IN  s.r = "ok" /\ s.m = md'[o.k] /\ s.d = o.d]_vars
C28Reopen == \A k \in Devs :
  LET m == md[k]
      same == /\ Intact(m.p) /\ Intact(m.b) /\ m.p.ents = m.b.ents
              /\ m.p.h.bak = WSub(m.nb, W1) /\ m.p.h.bak = m.b.h.cur /\ m.b.h.bak = m.p.h.cur
              /\ m.p.h.g = m.b.h.g /\ m.p.h.fu = m.b.h.fu /\ m.p.h.lu = m.b.h.lu
              /\ m.p.h.np = m.b.h.np
      d == DoOpen(Conf([wr |-> TRUE, ov |-> TRUE, rob |-> FALSE, cpc |-> FALSE]), m).d
  IN  same => DoWrite(d, m).r = "ok" /\ DoWrite(d, m).m = m

\* C04, C05: only a write changes a device, and only its own
C05Only == [][md' # md => \/ last'.op \in {"damage", "clone", "lose"}
                          \/ /\ last'.op = "write" /\ last'.r = "ok"
                             /\ DiskOf(last'.x).c.wr
                             /\ \A k \in Devs : md'[k] # md[k] => k = DevOf(last'.x)]_vars
C05ReadOnly == [][last'.op = "write" => (last'.r = "ReadOnly") = ~DiskOf(last'.x).c.wr]_vars
\* C06
C06Backup == [][last'.op = "write" /\ DiskOf(last'.x).c.rob =>
  LET k == DevOf(last'.x) IN
  md'[k].b = md[k].b /\ (last'.r = "ok" => md'[k].p.h.bak = Hdr(DiskOf(last'.x)).bak
                                          \/ ~DiskOf(last'.x).p.ok)]_vars
\* C25: other objects and devices stay as they are; copies begin equal
C25Others == [][\A y \in Live : (y # last'.x /\ os'[y] # None) => os'[y] = os[y]]_vars
C25Same == [][last'.op \in {"retgt", "clone"} =>
  LET d == DiskOf(last'.x)
      d2 == os'[last'.a][1].d
  IN  [d EXCEPT !.c.wr = TRUE] = [d2 EXCEPT !.c.wr = TRUE]
      /\ (last'.op = "clone" => d = d2)]_vars
\* C24
C24Align == ObjsOk(LAMBDA d :
  LET al == ToI(Alignment(d.parts))
      us == UsedOf(d.parts)
      pow == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048}
      fits(p) == \A j \in DOMAIN us : ToI(us[j].f) % p = 0
  IN  IF d.parts = <<>> THEN al = 0
      ELSE al \in pow /\ fits(al) /\ \A p \in pow : p > al => ~fits(p))
\* C27: entries in use stay inside the usable range
C27Inside == ObjsOk(LAMBDA d : Taken(d.parts) \subseteq Usable(Hdr(d)))
\* a header change does not take blocks from entries in use
C27Grow == [][\A x \in Live : (os'[x] # None /\ last'.op \notin {"create", "open", "write"}) =>
  LET d == DiskOf(x)
      d2 == os'[x][1].d
  IN  \A j \in DOMAIN d2.parts :
        (IsUsed(d2.parts[j]) /\ Of(d2.parts[j]) \subseteq Usable(Hdr(d)))
          => Of(d2.parts[j]) \subseteq Usable(Hdr(d2))]_vars
\* no two partitions share a block (none of the maps to install do)
C10Disjoint == ObjsOk(LAMBDA d : \A i, j \in DOMAIN d.parts :
  (i < j /\ IsUsed(d.parts[i]) /\ IsUsed(d.parts[j])) => Of(d.parts[i]) \cap Of(d.parts[j]) = {})
=============================================================================
